"""TrialKey: names, target / nontarget masks and conditions stay attached to their trials"""
from symx.harness import harness, s_and, s_or, s_not, _same1
from symx.util import index, array
import numpy as np
from hyperion.utils.trial_key import TrialKey

NC = 2      # conditions of each kind


def mk(E, p, m, s, conds=False):
    models = E.atoms(p + 'm', m, distinct=True)
    segs = E.atoms(p + 's', s, distinct=True)
    kw = {}
    if conds:
        kw = dict(model_cond=E.sbool(p + 'mc', (NC, m)), seg_cond=E.sbool(p + 'sc', (NC, s)),
                  trial_cond=E.sbool(p + 'tc', (NC, m, s)),
                  model_cond_name=np.array(['mc0', 'mc1']), seg_cond_name=np.array(['sc0', 'sc1']),
                  trial_cond_name=np.array(['tc0', 'tc1']))
    return TrialKey(models, segs, E.sbool(p + 't', (m, s)), E.sbool(p + 'n', (m, s)), **kw)


FIELDS = ('tar', 'non', 'model_cond', 'seg_cond', 'trial_cond')


class Snap(object):
    def __init__(self, k):
        self.model_set, self.seg_set = list(k.model_set), list(k.seg_set)
        for f in FIELDS:
            v = getattr(k, f)
            setattr(self, f, None if v is None else np.array(v, copy=True))
        self.names = [k.model_cond_name, k.seg_cond_name, k.trial_cond_name]


def unchanged(E, k, sn):
    E.same('models untouched', k.model_set, array(E, sn.model_set))
    E.same('segments untouched', k.seg_set, array(E, sn.seg_set))
    for f in FIELDS:
        if getattr(sn, f) is not None:
            E.same(f + ' untouched', getattr(k, f), getattr(sn, f))


def names_kept(E, k, sn):
    for a, b in zip([k.model_cond_name, k.seg_cond_name, k.trial_cond_name], sn.names):
        if b is None:
            E.claim('no names', a is None)
        else:
            E.same('condition names', a, b)


def same_trial(E, k, i, j, sn, a, b, tag=''):
    """trial (i,j) of key k is trial (a,b) of the snapshot"""
    E.same(tag + 'tar', k.tar[i, j], sn.tar[a, b])
    E.same(tag + 'non', k.non[i, j], sn.non[a, b])
    if sn.model_cond is not None:
        E.same(tag + 'model cond', k.model_cond[:, i], sn.model_cond[:, a])
        E.same(tag + 'seg cond', k.seg_cond[:, j], sn.seg_cond[:, b])
        E.same(tag + 'trial cond', k.trial_cond[:, i, j], sn.trial_cond[:, a, b])
    else:
        E.claim(tag + 'no conds', k.model_cond is None and k.seg_cond is None and k.trial_cond is None)


@harness('P06', configs=[dict(m=m, s=s, conds=c) for m, s in ((1, 2), (2, 2), (3, 2), (2, 3)) for c in (False, True)],
         bool_obj=True, bounds='up to 3x2 / 2x3 trials, 2 conditions of each kind')
def sort_keeps_trials(E, m, s, conds):
    k = mk(E, 'a', m, s, conds)
    sn = Snap(k)
    k.sort()
    E.claim('sizes', k.num_models == m and k.num_tests == s)
    for l in (k.model_set, k.seg_set):
        for i in range(len(l) - 1):
            E.claim('ascending', l[i] < l[i + 1])
    names_kept(E, k, sn)
    E.reach()
    for a in range(m):
        for b in range(s):
            same_trial(E, k, index(k.model_set, sn.model_set[a]), index(k.seg_set, sn.seg_set[b]), sn, a, b)


@harness('P06', configs=[dict(m=m, s=s, keep=k, conds=c) for m, s in ((2, 2), (3, 1), (1, 3)) for k in (True, False)
                         for c in (False, True)], bool_obj=True,
         bounds='up to 3 models / 3 segments, every sub-list in every order')
def filter_selects(E, m, s, keep, conds):
    k = mk(E, 'a', m, s, conds)
    sn = Snap(k)
    selm, sels = E.bool('selm', m), E.bool('sels', s)
    if not any(selm) or not any(sels) or (not keep and (all(selm) or all(sels))):
        return
    pm, ps = [i for i in range(m) if selm[i]], [i for i in range(s) if sels[i]]
    if keep:
        pm, ps = [pm[i] for i in E.perm('pm', len(pm))], [ps[i] for i in E.perm('ps', len(ps))]
    r = k.filter(array(E, [sn.model_set[i] for i in pm]), array(E, [sn.seg_set[i] for i in ps]), keep=keep)
    unchanged(E, k, sn)
    names_kept(E, r, sn)
    if keep:
        E.same('requested models', r.model_set, array(E, [sn.model_set[i] for i in pm]))
        E.same('requested segments', r.seg_set, array(E, [sn.seg_set[i] for i in ps]))
    E.reach()
    nm, ns = 0, 0
    for a in range(m):
        i = index(r.model_set, sn.model_set[a])
        E.claim('model selection', (i is not None) == (bool(selm[a]) == keep))
        for b in range(s):
            j = index(r.seg_set, sn.seg_set[b])
            E.claim('segment selection', (j is not None) == (bool(sels[b]) == keep))
            if i is not None and j is not None:
                same_trial(E, r, i, j, sn, a, b)
    E.claim('counts', len(r.model_set) == (len(pm) if keep else m - len(pm)) and
            len(r.seg_set) == (len(ps) if keep else s - len(ps)))


@harness('P06', configs=[dict(m=m, s=s, pm=a, ps=b, conds=c) for m, s, a, b in
                         ((2, 2, 2, 2), (3, 2, 2, 1), (2, 3, 1, 2)) for c in (False, True)], bool_obj=True,
         bounds='up to 3x2 trials, up to 2x2 parts')
def split_partitions(E, m, s, pm, ps, conds):
    k = mk(E, 'a', m, s, conds)
    sn = Snap(k)
    ms, cnt = [], 0
    for i in range(pm):
        ss = []
        for j in range(ps):
            r = k.split(i + 1, pm, j + 1, ps)
            names_kept(E, r, sn)
            for x in range(r.num_models):
                for y in range(r.num_tests):
                    a, b = index(sn.model_set, r.model_set[x]), index(sn.seg_set, r.seg_set[y])
                    E.claim('no invention', a is not None and b is not None)
                    same_trial(E, r, x, y, sn, a, b)
                    cnt += 1
            ss += list(r.seg_set)
        ms += list(r.model_set)
        E.same('segments in order', array(E, ss), array(E, sn.seg_set))
    E.same('models in order', array(E, ms), array(E, sn.model_set))
    E.claim('every trial once', cnt == m * s)
    unchanged(E, k, sn)
    E.reach()


@harness('P06', configs=[dict(a=a, b=b, conds=c) for a, b in (((1, 1), (1, 1)), ((2, 1), (1, 1)), ((1, 2), (1, 1)),
                                                              ((2, 1), (1, 2)), ((2, 1), (2, 1)), ((1, 2), (1, 2)))
                         for c in (False, True)] + [dict(a=(1, 1), b=(1, 1), c=(1, 1), conds=False)],
         bool_obj=True, bounds='2-3 keys with up to 2 models / 2 segments each, any overlap')
def merge_is_union(E, a, b, conds, c=None):
    l = [mk(E, 'a', *a, conds), mk(E, 'b', *b, conds)] + ([mk(E, 'c', *c, conds)] if c else [])
    sns = [Snap(k) for k in l]
    r = TrialKey.merge(l)
    for k, sn in zip(l, sns):
        unchanged(E, k, sn)
    names_kept(E, r, sns[0])
    E.reach()
    for sn in sns:
        for x in sn.model_set:
            E.claim('model kept', index(r.model_set, x) is not None)
        for x in sn.seg_set:
            E.claim('segment kept', index(r.seg_set, x) is not None)
    for i, x in enumerate(r.model_set):
        src_m = [(sn, index(sn.model_set, x)) for sn in sns]
        src_m = [(sn, q) for sn, q in src_m if q is not None]
        E.claim('no new model', len(src_m) > 0)
        if conds:
            E.same('model cond', r.model_cond[:, i],
                   array(E, [s_or(*[sn.model_cond[t, q] for sn, q in src_m]) for t in range(NC)]))
        for j, y in enumerate(r.seg_set):
            src = [(sn, q, index(sn.seg_set, y)) for sn, q in src_m]
            src = [t for t in src if t[2] is not None]
            E.same('tar', r.tar[i, j], s_or(*[sn.tar[q, w] for sn, q, w in src]))
            E.same('non', r.non[i, j], s_or(*[sn.non[q, w] for sn, q, w in src]))
            if conds:
                E.same('trial cond', r.trial_cond[:, i, j],
                       array(E, [s_or(*[sn.trial_cond[t, q, w] for sn, q, w in src]) for t in range(NC)]))
    for j, y in enumerate(r.seg_set):
        src = [(sn, index(sn.seg_set, y)) for sn in sns]
        src = [(sn, q) for sn, q in src if q is not None]
        E.claim('no new segment', len(src) > 0)
        if conds:
            E.same('seg cond', r.seg_cond[:, j],
                   array(E, [s_or(*[sn.seg_cond[t, q] for sn, q in src]) for t in range(NC)]))


@harness('P06', configs=[dict(m=m, s=s) for m, s in ((1, 1), (2, 2), (2, 3))], bool_obj=True, bounds='up to 2x3')
def to_ndx(E, m, s):
    k = mk(E, 'a', m, s)
    sn = Snap(k)
    n = k.to_ndx()
    E.reach()
    unchanged(E, k, sn)
    E.same('models', n.model_set, k.model_set)
    E.same('segments', n.seg_set, k.seg_set)
    for i in range(m):
        for j in range(s):
            E.same('either target or nontarget', n.trial_mask[i, j], s_or(sn.tar[i, j], sn.non[i, j]))


@harness('P06', configs=[dict(m=1, s=1, conds=c) for c in (False, True)] + [dict(m=2, s=1, conds=False)],
         bool_obj=True, bounds='up to 2x1 trials')
def equality(E, m, s, conds):
    a = mk(E, 'a', m, s, conds)
    b = a.copy()
    E.claim('copy equal', bool(a == b) and not (a != b))
    f = FIELDS[E.choice('f', 5 if conds else 2)]
    v = getattr(b, f)
    keep = np.array(getattr(a, f), copy=True)
    ix = tuple(E.choice('i%d' % q, n) for q, n in enumerate(v.shape))
    v[ix] = s_not(v[ix])
    E.claim('difference in %s detected' % f, not (a == b) and bool(a != b))
    E.same('copy is independent', getattr(a, f), keep)
    d = TrialKey(a.model_set, E.atoms('ds', s, distinct=True), a.tar, a.non)
    e = TrialKey(E.atoms('em', m, distinct=True), a.seg_set, a.tar, a.non) if not conds else None
    if not conds:
        E.claim('segment names compared', bool(a == d) == all(bool(x == y) for x, y in zip(a.seg_set, d.seg_set)))
        E.claim('model names compared', bool(a == e) == all(bool(x == y) for x, y in zip(a.model_set, e.model_set)))
    else:
        E.claim('missing conditions detected', not (a == d))
    E.reach()
