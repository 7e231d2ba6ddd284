"""TrialNdx: the (model, segment) -> mask relation is what every operation must preserve"""
from symx.harness import harness, s_and, s_or, s_not
from symx.util import index, array
import numpy as np
from hyperion.utils.trial_ndx import TrialNdx


def mk(E, p, m, s, models=None, segs=None):
    models = E.atoms(p + 'm', m, distinct=True) if models is None else models
    segs = E.atoms(p + 's', s, distinct=True) if segs is None else segs
    return TrialNdx(models, segs, E.sbool(p + 'k', (m, s)))


def rel(ndx):
    """relation as explicit triples"""
    return [(a, b, ndx.trial_mask[i, j]) for i, a in enumerate(ndx.model_set) for j, b in enumerate(ndx.seg_set)]


def snapshot(ndx):
    return (list(ndx.model_set), list(ndx.seg_set), np.array(ndx.trial_mask, copy=True))


def unchanged(E, ndx, snap, what='input'):
    E.same(what + ' models untouched', ndx.model_set, array(E, snap[0]))
    E.same(what + ' segments untouched', ndx.seg_set, array(E, snap[1]))
    E.same(what + ' mask untouched', ndx.trial_mask, snap[2])


def look(ndx, a, b):
    i, j = index(ndx.model_set, a), index(ndx.seg_set, b)
    return None if i is None or j is None else ndx.trial_mask[i, j]


SH = [dict(m=m, s=s) for m in (1, 2, 3) for s in (1, 2)] + [dict(m=2, s=3)]


@harness('P05', configs=SH, bool_obj=True, bounds='up to 3 models x 3 segments')
def sort_keeps_trials(E, m, s):
    n = mk(E, 'a', m, s)
    before = rel(n)
    n.sort()
    E.claim('model count', n.num_models == m)
    E.claim('seg count', n.num_tests == s)
    for i in range(m - 1):
        E.claim('models ascending', n.model_set[i] < n.model_set[i + 1])
    for i in range(s - 1):
        E.claim('segments ascending', n.seg_set[i] < n.seg_set[i + 1])
    E.reach()
    for a, b, k in before:
        E.same('mask', look(n, a, b), k)


@harness('P05', configs=[dict(m=m, s=s, keep=k) for m in (2, 3) for s in (1, 2) for k in (True, False)], bool_obj=True,
         bounds='up to 3 models x 2 segments, every sub-list in every order, keep/remove')
def filter_selects(E, m, s, keep):
    n = mk(E, 'a', m, s)
    snap = snapshot(n)
    selm = E.bool('selm', m)
    sels = E.bool('sels', s)
    if not any(selm) or not any(sels) or (not keep and (all(selm) or all(sels))):
        return
    pm, ps = [snap[0][i] for i in range(m) if selm[i]], [snap[1][i] for i in range(s) if sels[i]]
    if keep:
        pm = [pm[i] for i in E.perm('pm', len(pm))]
        ps = [ps[i] for i in E.perm('ps', len(ps))]
    r = n.filter(array(E, pm), array(E, ps), keep=keep)
    E.reach()
    unchanged(E, n, snap)
    if keep:
        E.same('requested models in requested order', r.model_set, array(E, pm))
        E.same('requested segments in requested order', r.seg_set, array(E, ps))
    else:
        E.claim('models', len(r.model_set) == m - len(pm))
        E.claim('segments', len(r.seg_set) == s - len(ps))
    for i in range(m):
        for j in range(s):
            inside = bool(selm[i]) == keep and bool(sels[j]) == keep
            v = look(r, snap[0][i], snap[1][j])
            if inside:
                E.same('kept trial', v, snap[2][i, j])
            else:
                E.claim('removed trial', v is None)


@harness('P05', configs=[dict(m=m, s=s, pm=a, ps=b) for m, s, a, b in
                         ((2, 2, 2, 2), (3, 2, 2, 1), (3, 2, 1, 2), (3, 2, 3, 2), (1, 2, 1, 1))], bool_obj=True,
         bounds='up to 3x2 trials, up to 3x2 parts')
def split_partitions(E, m, s, pm, ps):
    n = mk(E, 'a', m, s)
    snap = snapshot(n)
    parts = [[n.split(i + 1, pm, j + 1, ps) for j in range(ps)] for i in range(pm)]
    unchanged(E, n, snap)
    E.reach()
    ms, ss = [], []
    for i in range(pm):
        ms += list(parts[i][0].model_set)
        for j in range(ps):
            E.same('row models', parts[i][j].model_set, parts[i][0].model_set)
            E.same('col segs', parts[i][j].seg_set, parts[0][j].seg_set)
    for j in range(ps):
        ss += list(parts[0][j].seg_set)
    E.same('models in order', array(E, ms), array(E, snap[0]))
    E.same('segments in order', array(E, ss), array(E, snap[1]))
    for i in range(pm):
        for j in range(ps):
            for a, b, k in rel(parts[i][j]):
                E.same('mask', k, look(n, a, b))


@harness('P05', configs=[dict(a=(1, 1), b=(1, 1)), dict(a=(2, 1), b=(1, 2)), dict(a=(2, 1), b=(2, 1)),
                         dict(a=(1, 2), b=(1, 2)), dict(a=(1, 1), b=(1, 1), c=(1, 1)), dict(a=(2, 2), b=(2, 1))],
         thorough=[dict(a=(1, 1), b=(1, 1)), dict(a=(2, 1), b=(1, 2)), dict(a=(2, 1), b=(2, 1)),
                   dict(a=(1, 2), b=(1, 2)), dict(a=(1, 1), b=(1, 1), c=(1, 1)),
                   dict(a=(2, 2), b=(2, 2)), dict(a=(3, 1), b=(2, 2)), dict(a=(1, 1), b=(2, 1), c=(1, 1))],
         bool_obj=True, bounds='2 or 3 lists with up to 2x2 trials each, any overlap')
def merge_is_union(E, a, b, c=None):
    l = [mk(E, 'a', *a), mk(E, 'b', *b)] + ([mk(E, 'c', *c)] if c else [])
    snaps = [snapshot(n) for n in l]
    r = TrialNdx.merge(l)
    E.reach()
    for n, sn in zip(l, snaps):
        unchanged(E, n, sn)
    for x in list(r.model_set):
        E.claim('no new model', s_or(*[index(n.model_set, x) is not None for n in l]))
    for x in list(r.seg_set):
        E.claim('no new segment', s_or(*[index(n.seg_set, x) is not None for n in l]))
    for n in l:
        for x in n.model_set:
            E.claim('model kept', index(r.model_set, x) is not None)
        for x in n.seg_set:
            E.claim('segment kept', index(r.seg_set, x) is not None)
    for x, y, k in rel(r):
        exp = [look(n, x, y) for n in l]
        E.same('union of the masks', k, s_or(*[e for e in exp if e is not None]))


@harness('P05', configs=[dict(m=m, s=s) for m, s in ((1, 1), (2, 1), (2, 2))], bool_obj=True,
         bounds='lists up to 2x2')
def equality(E, m, s):
    a = mk(E, 'a', m, s)
    b = a.copy()
    E.claim('copy equal', bool(a == b) and not (a != b))
    k = b.trial_mask.copy()
    i, j = E.choice('i', m), E.choice('j', s)
    b.trial_mask[i, j] = s_not(b.trial_mask[i, j])
    E.claim('differing mask detected', not (a == b) and (a != b))
    E.same('copy is independent', a.trial_mask, k)
    c = mk(E, 'c', m, s)
    same = s_and(*[s_and(*[bool(x == y) for x, y in zip(a.model_set, c.model_set)]),
                   *[bool(x == y) for x, y in zip(a.seg_set, c.seg_set)]])
    mk_ = s_and(*[_iff(E, x, y) for x, y in zip(a.trial_mask.flat, c.trial_mask.flat)])
    E.claim('equality', bool(a == c) == bool(s_and(same, mk_)))
    E.reach()


def _iff(E, x, y):
    from symx.harness import _same1
    return _same1(x, y)


@harness('P05', configs=[dict(m=1, s=1), dict(m=2, s=2)], bool_obj=True, bounds='up to 2x2')
def default_mask_and_validation(E, m, s):
    mo, se = E.atoms('m', m), E.atoms('s', s)
    dup = any(bool(mo[i] == mo[j]) for i in range(m) for j in range(i)) or \
        any(bool(se[i] == se[j]) for i in range(s) for j in range(i))
    try:
        n = TrialNdx(mo, se)
    except AssertionError:
        E.claim('only duplicated names are rejected', dup)
        return
    E.claim('duplicated names rejected', not dup)
    E.reach()
    E.same('all trials by default', n.trial_mask, np.ones((m, s), dtype=bool))


class _Segs(object):
    def __init__(self, d):
        self.d = d

    def ext_segment_ids_from_file(self, f):
        for k, v in self.d:
            if k == f:
                return v


@harness('P05', configs=[dict(m=2, n=(1, 2)), dict(m=1, n=(2, 1, 1)), dict(m=2, n=(2, 3))], bool_obj=True,
         bounds='2 models, up to 3 files, up to 3 segments per file')
def apply_segmentation(E, m, n):
    x = mk(E, 'a', m, len(n), segs=array(E, ['f%d' % i for i in range(len(n))]))
    segs = [(f, array(E, ['%s-s%d' % (f, k) for k in range(n[i])])) for i, f in enumerate(x.seg_set)]
    r = x.apply_segmentation_to_test(_Segs(segs))
    E.reach()
    E.same('models', r.model_set, x.model_set)
    E.claim('segments', len(r.seg_set) == sum(n))
    for i, a in enumerate(x.model_set):
        for j, (f, ids) in enumerate(segs):
            for t in ids:
                E.same('inherits the mask of its file', look(r, a, t), x.trial_mask[i, j])


class _Keys(object):
    pass


@harness('P05', configs=[dict(ev=e) for e in ('enroll-test', 'enroll-coh', 'coh-test', 'coh-coh')], bool_obj=True,
         bounds='2 models x 2 segments, cohorts of 2')
def eval_sets(E, ev):
    x = mk(E, 'a', 2, 2)
    coh = E.atoms('c', 2, distinct=True)
    enr = _Keys()
    enr.key = E.atoms('e', 2, distinct=True)
    tok = object()
    seen = []
    enr.filter_info = lambda s: (seen.append(s), tok)[1]
    test = _Keys()
    test.key = coh
    n, e = TrialNdx.parse_eval_set(x, enr, test, ev)
    E.reach()
    mods = x.model_set if ev.startswith('enroll') else enr.key
    segs = x.seg_set if ev.endswith('test') else coh
    E.same('models', n.model_set, mods)
    E.same('segments', n.seg_set, segs)
    if ev == 'enroll-test':
        E.same('mask', n.trial_mask, x.trial_mask)
    else:
        E.same('full mask', n.trial_mask, np.ones((2, 2), dtype=bool))
    if ev.startswith('enroll'):
        E.claim('enroll list restricted to the trial models', e is tok and len(seen) == 1)
        E.same('restricted to models', seen[0], x.model_set)
    else:
        E.claim('enroll untouched', e is enr)
