"""cross-validation folds and train/val/eval partitions"""
from symx.harness import harness, s_and, s_or
from symx.util import index, array
import numpy as np
from hyperion.utils.fold_list import FoldList
from hyperion.utils.train_val_eval_list import TrainValEvalList


def groups(E, name, n):
    """list of names with any equality pattern (None: no list)"""
    return E.atoms(name, n)


def distinct(xs):
    out = []
    for x in xs:
        if index(out, x) is None:
            out.append(x)
    return out


FC = [dict(n=n, k=k, group=g, bal=b, mask=m, shuffle=s)
      for n, k in ((2, 2), (3, 2), (4, 2), (4, 3)) for g, b in ((0, 0), (1, 0), (0, 1)) for m in (0, 1) for s in (0, 1)
      if not (n == 4 and (m and (b or g) or s and (g or b or k == 3)))] + \
     [dict(n=3, k=2, group=1, bal=1, mask=0, shuffle=0), dict(n=5, k=3, group=0, bal=0, mask=0, shuffle=0),
      dict(n=7, k=3, group=0, bal=0, mask=0, shuffle=0), dict(n=6, k=4, group=0, bal=0, mask=0, shuffle=0)]


def inputs(E, n, group, bal, mask):
    seg = E.names('s', n) if n > 4 else E.atoms('s', n, distinct=True)
    if n <= 4:
        for i in range(n - 1):
            E.assume(seg[i] < seg[i + 1])      # the names themselves are immaterial
    g = E.atoms('g', n) if group else None
    b = E.atoms('b', n) if bal else None
    m = E.bool('m', n) if mask else None
    return seg, g, b, m


def check_partition(E, n, part, g, b, m, share):
    """part: part of every segment; share(class groups) -> allowed numbers of groups for each part"""
    for i in range(n):
        if m is not None and not m[i]:
            E.claim('masked out segments belong to no part', part[i] < 0)
        else:
            E.claim('every segment has a part', part[i] >= 0)
    use = [i for i in range(n) if m is None or m[i]]
    gk = g if g is not None else list(range(n))
    for i in use:
        for j in use:
            if gk[i] == gk[j] and (b is None or b[i] == b[j]):
                E.claim('same group, same part', part[i] == part[j])
    for c in distinct([b[i] for i in use]) if b is not None else [None]:
        idx = [i for i in use if b is None or b[i] == c]
        gs = distinct([gk[i] for i in idx])
        cnt = {}
        for x in gs:
            p = part[[i for i in idx if gk[i] == x][0]]
            cnt[p] = cnt.get(p, 0) + 1
        for p, c in share(len(gs)):
            E.claim('balanced parts', c(cnt.get(p, 0)))


@harness('P10', configs=FC, bounds='up to 4 segments with any groups, classes and masks (7 without), 2-4 folds')
def folds(E, n, k, group, bal, mask, shuffle):
    seg, g, b, m = inputs(E, n, group, bal, mask)
    if m is not None and not m.any():
        return
    with E.random_state():
        bad, f = E.attempt(lambda: FoldList.create(seg, k, balance_by_key=b, group_by_key=g,
                                                   mask=None if m is None else m.copy(), shuffle=bool(shuffle)), AssertionError)
    E.reach()
    use = [i for i in range(n) if m is None or m[i]]
    gk = g if g is not None else list(range(n))
    if bad:
        # only when there are not enough groups to fill every fold
        ncl = 1 if b is None else len(distinct([b[i] for i in use]))
        mx = 0
        for c in distinct([b[i] for i in use]) if b is not None else [None]:
            mx = max(mx, len(distinct([gk[i] for i in use if b is None or b[i] == c])))
        E.claim('rejected only if folds would be empty', mx < k)
        return
    part = [int(x) for x in f.fold]
    E.claim('number of folds', f.num_folds == k and len(f) == k)
    check_partition(E, n, part, g, b, m, lambda N: [(p, lambda c, N=N: N // k <= c <= -(-N // k)) for p in range(k)])
    seen = []
    for i in range(k):
        tr, te = f.get_fold_idx(i)
        ktr, kte = f.get_fold(i)
        E.same('keys train', ktr, array(E, [seg[j] for j in range(n) if tr[j]]))
        E.same('keys test', kte, array(E, [seg[j] for j in range(n) if te[j]]))
        a2, b2 = f[i]
        E.same('item access', list(a2) + list(b2), list(ktr) + list(kte))
        for j in range(n):
            E.claim('test fold', bool(te[j]) == (part[j] == i))
            E.claim('train is the rest', bool(tr[j]) == (part[j] != i and j in use))
        seen += [j for j in range(n) if te[j]]
    E.claim('tested exactly once', sorted(seen) == use)


@harness('P10', configs=[dict(n=n, nq=q, mask=m, cls=c) for n, q in ((2, 1), (2, 2), (3, 2), (1, 2)) for m in (0, 1) for c in (0, 1)],
         bounds='up to 3 segments, any order and subset')
def align(E, n, nq, mask, cls):
    seg = E.atoms('s', n, distinct=True)
    fold = np.arange(n) // 2
    m = np.arange(n) % 2 == 0 if mask else None
    f = TrainValEvalList(seg, fold.copy(), None, m) if cls else FoldList(fold.copy(), seg, m)
    q = E.atoms('q', nq, distinct=True)
    pos = [index(seg, x) for x in q]
    bad, _ = E.attempt(lambda: f.align_with_key(q))
    E.reach()
    E.claim('missing segments are reported', bad == (None in pos))
    if not bad:
        E.same('keys', f.key, q)
        v = f.part if cls else f.fold
        E.claim('parts', [int(x) for x in v] == [int(fold[p]) for p in pos])
        if m is not None:
            E.claim('mask', [bool(x) for x in f.mask] == [bool(m[p]) for p in pos])


@harness('P10', configs=[dict(n=n) for n in (1, 2, 3)], text=True, bounds='up to 3 segments')
def text_round_trip(E, n):
    seg = E.names('s', n)[E.perm('p', n)]
    fold = np.array([min(E.choice('f%d' % i, 3), i) for i in range(n)])
    if sorted(set(fold)) != list(range(len(set(fold)))):
        return
    fn = E.tmp('folds')
    FoldList(fold.copy(), seg).save(fn)
    r = FoldList.load(fn)
    E.reach()
    E.claim('folds', [int(x) for x in r.fold] == list(fold))
    E.claim('keys', [str(x) for x in r.key] == [str(x) for x in seg])
    names = ['train', 'val', 'eval'] if E.bool('named') else None
    t = TrainValEvalList(seg, fold.copy(), names)
    t.save(fn)
    r = TrainValEvalList.load(fn)
    E.claim('parts', [int(x) for x in r.part] == list(fold))
    E.claim('keys', [str(x) for x in r.key] == [str(x) for x in seg])
    E.claim('names', (r.part_names is None) == (names is None))
    for p in range(int(max(fold)) + 1):
        E.same('part by number', [str(x) for x in r.get_part(p)], [str(s) for s, q in zip(seg, fold) if q == p])
        E.same('part by item', [str(x) for x in r[p]], [str(s) for s, q in zip(seg, fold) if q == p])
        if names:
            E.same('part by name', [str(x) for x in r.get_part(names[p])], [str(s) for s, q in zip(seg, fold) if q == p])


TC = [dict(n=n, k=k, group=g, bal=b, mask=m, shuffle=s)
      for n, k in ((2, 2), (3, 2), (3, 3), (4, 3)) for g, b, m, s in ((0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1))
      if not (n == 4 and (s or g or b))] + [dict(n=6, k=3, group=0, bal=0, mask=0, shuffle=0)]


@harness('P10', configs=TC, bounds='up to 4 segments with any groups, classes and masks (6 without), 2-3 parts, all proportions')
def train_val_eval(E, n, k, group, bal, mask, shuffle):
    seg, g, b, m = inputs(E, n, group, bal, mask)
    if m is not None and not m.any():
        return
    prop = E.real('p', k - 1, lo=0, hi=1)
    cum = [0]
    for p in prop:
        cum.append(cum[-1] + p)
    cum.append(1)
    E.assume(cum[-2] <= 1)
    with E.random_state():
        bad, t = E.attempt(lambda: TrainValEvalList.create(seg, list(prop), balance_by_key=b, group_by_key=g,
                                                           mask=None if m is None else m.copy(), shuffle=bool(shuffle)), AssertionError)
    if bad:
        return
    E.reach()
    part = [int(x) for x in t.part]
    E.claim('number of parts', max(part) < k)
    def share(N):
        return [(p, (lambda c, p=p, N=N: s_and(c <= (cum[p + 1] - cum[p]) * N + 1, c >= (cum[p + 1] - cum[p]) * N - 1)))
                for p in range(k)]
    check_partition(E, n, part, g, b, m, share)
    names = ['train', 'eval'] if k == 2 else ['train', 'val', 'eval']
    for p in range(k):
        idx = t.get_part_idx(p)
        E.claim('named part', [bool(x) for x in t.get_part_idx(names[p])] == [bool(x) for x in idx])
        for j in range(n):
            E.claim('part index', bool(idx[j]) == (part[j] == p))
        E.same('keys', t.get_part(p), array(E, [seg[j] for j in range(n) if part[j] == p]))


@harness('P10', configs=[dict(n=n, k=k) for n in (4, 6) for k in (2, 3)], bounds='4 or 6 segments, 2-3 parts, proportions above 1/n')
def train_val_eval_accepts(E, n, k):
    """feasible proportions are not rejected"""
    prop = E.real('p', k - 1, lo=0, hi=1)
    for p in prop:
        E.assume(p * n > 1)
    E.assume((1 - sum(prop)) * n > 1)
    seg = E.names('s', n)
    t = TrainValEvalList.create(seg, list(prop), shuffle=False)
    E.reach()
    E.claim('all parts present', sorted(set(int(x) for x in t.part)) == list(range(k)))
