"""TrialScores: every score stays attached to its (model, segment) trial"""
from symx.harness import harness, s_and, s_or, s_not
from symx.util import index, array
import numpy as np
from hyperion.utils.trial_key import TrialKey
from hyperion.utils.trial_ndx import TrialNdx
from hyperion.utils.trial_scores import TrialScores


def mk(E, p, m, s, models=None, segs=None, enum=False):
    models = E.atoms(p + 'm', m, distinct=True) if models is None else models
    segs = E.atoms(p + 's', s, distinct=True) if segs is None else segs
    mask = (E.bool if enum else E.sbool)(p + 'k', (m, s))
    if enum and E.symbolic:
        mask = array(E, [[bool(v) for v in r] for r in mask])
    return TrialScores(models, segs, E.real(p + 'v', (m, s)), mask)


class Snap(object):
    def __init__(self, k):
        self.model_set, self.seg_set = list(k.model_set), list(k.seg_set)
        self.scores, self.score_mask = np.array(k.scores, copy=True), np.array(k.score_mask, copy=True)


def unchanged(E, k, sn):
    E.same('models untouched', k.model_set, array(E, sn.model_set))
    E.same('segments untouched', k.seg_set, array(E, sn.seg_set))
    E.same('scores untouched', k.scores, sn.scores)
    E.same('mask untouched', k.score_mask, sn.score_mask)


def same_trial(E, k, i, j, sn, a, b):
    E.same('score', k.scores[i, j], sn.scores[a, b])
    E.same('mask', k.score_mask[i, j], sn.score_mask[a, b])


@harness('P07', configs=[dict(m=m, s=s) for m, s in ((1, 2), (2, 2), (3, 2), (2, 3))], bool_obj=True,
         bounds='up to 3x2 / 2x3 trials')
def sort_keeps_trials(E, m, s):
    k = mk(E, 'a', m, s)
    sn = Snap(k)
    k.sort()
    for l in (k.model_set, k.seg_set):
        for i in range(len(l) - 1):
            E.claim('ascending', l[i] < l[i + 1])
    E.claim('sizes', k.num_models == m and k.num_tests == s)
    E.reach()
    for a in range(m):
        for b in range(s):
            same_trial(E, k, index(k.model_set, sn.model_set[a]), index(k.seg_set, sn.seg_set[b]), sn, a, b)


@harness('P07', configs=[dict(m=m, s=s, keep=k) for m, s in ((2, 2), (3, 1), (1, 3)) for k in (True, False)],
         bool_obj=True, bounds='up to 3 models / 3 segments, every sub-list in every order')
def filter_selects(E, m, s, keep):
    k = mk(E, 'a', m, s)
    sn = Snap(k)
    selm, sels = E.bool('selm', m), E.bool('sels', s)
    if not any(selm) or not any(sels) or (not keep and (all(selm) or all(sels))):
        return
    pm, ps = [i for i in range(m) if selm[i]], [i for i in range(s) if sels[i]]
    if keep:
        pm, ps = [pm[i] for i in E.perm('pm', len(pm))], [ps[i] for i in E.perm('ps', len(ps))]
    r = k.filter(array(E, [sn.model_set[i] for i in pm]), array(E, [sn.seg_set[i] for i in ps]), keep=keep)
    unchanged(E, k, sn)
    if keep:
        E.same('requested models', r.model_set, array(E, [sn.model_set[i] for i in pm]))
        E.same('requested segments', r.seg_set, array(E, [sn.seg_set[i] for i in ps]))
    E.reach()
    for a in range(m):
        i = index(r.model_set, sn.model_set[a])
        E.claim('model selection', (i is not None) == (bool(selm[a]) == keep))
        for b in range(s):
            j = index(r.seg_set, sn.seg_set[b])
            E.claim('segment selection', (j is not None) == (bool(sels[b]) == keep))
            if i is not None and j is not None:
                same_trial(E, r, i, j, sn, a, b)


@harness('P07', configs=[dict(m=1, s=1, q=(1, 1)), dict(m=2, s=1, q=(2, 1)), dict(m=1, s=2, q=(1, 2)), dict(m=2, s=2, q=(1, 2)),
                         dict(m=2, s=1, q=(3, 1)), dict(m=1, s=2, q=(1, 3))],
         bool_obj=True, bounds='2x2 scores, requested lists up to 3 names (known or unknown)')
def filter_missing(E, m, s, q):
    k = mk(E, 'a', m, s)
    sn = Snap(k)
    qm, qs = E.atoms('qm', q[0], distinct=True), E.atoms('qs', q[1], distinct=True)
    known = [index(sn.model_set, x) is not None for x in qm] + [index(sn.seg_set, x) is not None for x in qs]
    try:
        k.filter(qm, qs)
        E.claim('missing names must be reported', all(known))
    except Exception as e:
        if type(e) is not Exception:
            raise
        E.claim('complete requests must not be rejected', not all(known))
    r = k.filter(qm, qs, raise_missing=False)
    unchanged(E, k, sn)
    E.same('models', r.model_set, qm)
    E.same('segments', r.seg_set, qs)
    E.reach()
    for i, x in enumerate(qm):
        a = index(sn.model_set, x)
        for j, y in enumerate(qs):
            b = index(sn.seg_set, y)
            if a is not None and b is not None:
                same_trial(E, r, i, j, sn, a, b)
            else:
                E.same('missing trial is masked out', r.score_mask[i, j], False)


@harness('P07', configs=[dict(m=m, s=s, pm=a, ps=b) for m, s, a, b in
                         ((2, 2, 2, 2), (3, 2, 2, 1), (2, 3, 1, 2))], bool_obj=True,
         bounds='up to 3x2 trials, up to 2x2 parts')
def split_partitions(E, m, s, pm, ps):
    k = mk(E, 'a', m, s)
    sn = Snap(k)
    ms, cnt = [], 0
    for i in range(pm):
        ss = []
        for j in range(ps):
            r = k.split(i + 1, pm, j + 1, ps)
            for x in range(r.num_models):
                for y in range(r.num_tests):
                    a, b = index(sn.model_set, r.model_set[x]), index(sn.seg_set, r.seg_set[y])
                    same_trial(E, r, x, y, sn, a, b)
                    cnt += 1
            ss += list(r.seg_set)
        ms += list(r.model_set)
        E.same('segments in order', array(E, ss), array(E, sn.seg_set))
    E.same('models in order', array(E, ms), array(E, sn.model_set))
    E.claim('every trial once', cnt == m * s)
    unchanged(E, k, sn)
    E.reach()


@harness('P07', configs=[dict(a=(1, 1), b=(1, 1)), dict(a=(2, 1), b=(1, 1)), dict(a=(1, 2), b=(1, 1)), dict(a=(1, 1), b=(2, 1)),
                         dict(a=(1, 1), b=(1, 2)), dict(a=(1, 1), b=(1, 1), c=(1, 1))],
         thorough=[dict(a=(1, 1), b=(1, 1)), dict(a=(2, 1), b=(1, 2)), dict(a=(2, 1), b=(2, 1)), dict(a=(1, 2), b=(1, 2)),
                   dict(a=(1, 1), b=(1, 1), c=(1, 1)), dict(a=(1, 1), b=(1, 2)), dict(a=(1, 1), b=(2, 1))],
         bool_obj=True, bounds='2-3 score lists with up to 2 models / 2 segments each, any overlap of names')
def merge_is_union(E, a, b, c=None):
    l = [mk(E, 'a', *a, enum=True), mk(E, 'b', *b, enum=True)] + ([mk(E, 'c', *c, enum=True)] if c else [])
    sns = [Snap(k) for k in l]
    clash = False
    try:
        r = TrialScores.merge(l)
    except AssertionError:
        r = None
    tri = []
    for sn in sns:
        for i, x in enumerate(sn.model_set):
            for j, y in enumerate(sn.seg_set):
                if bool(sn.score_mask[i, j]):
                    tri.append((x, y, sn.scores[i, j]))
    dup = any(bool(tri[i][0] == tri[j][0]) and bool(tri[i][1] == tri[j][1])
              for i in range(len(tri)) for j in range(i))
    if r is None:
        E.claim('only repeated trials are rejected', dup)
        return
    E.claim('repeated trials are rejected', not dup)
    for k, sn in zip(l, sns):
        unchanged(E, k, sn)
    E.reach()
    for x, y, v in tri:
        i, j = index(r.model_set, x), index(r.seg_set, y)
        E.same('kept score', r.scores[i, j], v)
        E.same('kept mask', r.score_mask[i, j], True)
    E.claim('nothing else', sum(int(bool(v)) for v in r.score_mask.flat) == len(tri))


@harness('P07', configs=[dict(m=m, s=s, q=q, key=k) for m, s, q in ((1, 1, (1, 1)), (2, 1, (1, 1)), (1, 2, (1, 1)), (2, 1, (2, 1)), (1, 2, (1, 2)))
                         for k in (False, True)],
         bool_obj=True, bounds='up to 2 models / 2 segments, index lists with known and unknown names')
def align(E, m, s, q, key):
    k = mk(E, 'a', m, s, enum=True)
    sn = Snap(k)
    qm, qs = E.atoms('qm', q[0], distinct=True), E.atoms('qs', q[1], distinct=True)
    if key:
        tar, non = E.sbool('t', q), E.sbool('n', q)
        ndx = TrialKey(qm, qs, tar, non)
        want = [[bool(s_or(tar[i, j], non[i, j])) for j in range(q[1])] for i in range(q[0])]
    else:
        mask = E.sbool('w', q)
        ndx = TrialNdx(qm, qs, mask)
        want = [[bool(mask[i, j]) for j in range(q[1])] for i in range(q[0])]
    ia = [index(sn.model_set, x) for x in qm]
    ib = [index(sn.seg_set, y) for y in qs]

    def have(i, j):
        return ia[i] is not None and ib[j] is not None and bool(sn.score_mask[ia[i], ib[j]])
    complete = all(have(i, j) or not want[i][j] for i in range(q[0]) for j in range(q[1]))
    listed = all(x is not None for x in ia + ib)
    try:
        r = k.align_with_ndx(ndx)
        ok = True
    except Exception as e:
        if type(e) is not Exception:
            raise
        ok = False
    E.claim('raises exactly when a requested score is missing', ok == (complete and listed))
    unchanged(E, k, sn)
    r2 = k.align_with_ndx(ndx, raise_missing=False)
    val = E.real('val')
    r3 = k.set_missing_to_value(ndx, val)
    unchanged(E, k, sn)
    E.reach()
    for rr in ([r] if ok else []) + [r2, r3]:
        E.same('models of the index', rr.model_set, qm)
        E.same('segments of the index', rr.seg_set, qs)
    for i in range(q[0]):
        for j in range(q[1]):
            for rr in ([r] if ok else []) + [r2]:
                E.same('valid iff requested and scored', rr.score_mask[i, j], want[i][j] and have(i, j))
                if have(i, j):
                    E.same('score', rr.scores[i, j], sn.scores[ia[i], ib[j]])
            E.same('filled mask', r3.score_mask[i, j], want[i][j])
            if want[i][j]:
                E.same('filled score', r3.scores[i, j], sn.scores[ia[i], ib[j]] if have(i, j) else val)


@harness('P07', configs=[dict(m=2, s=1), dict(m=1, s=2), dict(m=2, s=2)], bool_obj=True,
         bounds='2x2 scores, any key over the same trials in any order')
def tar_non_scores(E, m, s):
    k = mk(E, 'a', m, s)
    k.score_mask = np.ones((m, s), dtype=bool)
    sn = Snap(k)
    pm, ps = E.perm('pm', m), E.perm('ps', s)
    lab = [[E.choice('l%d%d' % (i, j), 3) for j in range(s)] for i in range(m)]
    key = TrialKey(array(E, [sn.model_set[i] for i in pm]), array(E, [sn.seg_set[i] for i in ps]),
                   np.array([[lab[i][j] == 1 for j in range(s)] for i in range(m)]),
                   np.array([[lab[i][j] == 2 for j in range(s)] for i in range(m)]))
    tar, non = k.get_tar_non(key)
    unchanged(E, k, sn)
    E.reach()
    E.same('targets', tar, array(E, [sn.scores[pm[i], ps[j]] for i in range(m) for j in range(s) if lab[i][j] == 1]))
    E.same('nontargets', non, array(E, [sn.scores[pm[i], ps[j]] for i in range(m) for j in range(s) if lab[i][j] == 2]))


@harness('P07', configs=[dict(m=2, s=1), dict(m=2, s=2)], bool_obj=True, bounds='up to 2x2, affine maps')
def transform(E, m, s):
    k = mk(E, 'a', m, s, enum=True)
    k.score_mask = k.score_mask.astype(bool)
    sn = Snap(k)
    a, b = E.real('a'), E.real('b')
    k.transform(lambda x: x * a + b)
    E.reach()
    for i in range(m):
        for j in range(s):
            E.eq('only valid scores mapped', k.scores[i, j],
                 sn.scores[i, j] * a + b if bool(sn.score_mask[i, j]) else sn.scores[i, j])


@harness('P07', configs=[dict(m=1, s=1), dict(m=2, s=1)], bool_obj=True, bounds='up to 2x1')
def defaults_and_equality(E, m, s):
    mo, se = E.atoms('m', m), E.atoms('s', s)
    dup = any(bool(mo[i] == mo[j]) for i in range(m) for j in range(i)) or \
        any(bool(se[i] == se[j]) for i in range(s) for j in range(i))
    try:
        n = TrialScores(mo, se)
    except AssertionError:
        E.claim('only duplicates rejected', dup)
        return
    E.claim('duplicates rejected', not dup)
    E.same('zero scores', n.scores, np.zeros((m, s)))
    E.same('all valid', n.score_mask, np.ones((m, s), dtype=bool))
    a = TrialScores(mo, se, E.real('v', (m, s), lo=-100, hi=100))
    b = a.copy()
    E.claim('copy equal', bool(a == b))
    old = a.scores.copy()
    i, j = E.choice('i', m), E.choice('j', s)
    b.scores[i, j] = b.scores[i, j] + 1
    E.same('copy is independent', a.scores, old)
    E.claim('score difference detected', not (a == b) and (a != b))
    b = a.copy()
    b.score_mask[i, j] = False
    E.claim('mask difference detected', not (a == b))
    E.reach()
