"""trial lists, keys and scores written to disk are read back unchanged"""
from symx.harness import harness, s_and, s_or
from symx.util import index, array
from symx.fakeh5 import patch_h5
import numpy as np
from hyperion.utils.trial_ndx import TrialNdx
from hyperion.utils.trial_key import TrialKey
from hyperion.utils.trial_scores import TrialScores

SZ = [dict(m=m, s=s) for m, s in ((1, 1), (1, 3), (2, 2), (3, 2), (2, 3))]
H5 = ['file storage is replaced by an in-memory store in the symbolic runs (the replay uses h5py)']


def names(E, m, s, fixed):
    if fixed:
        return E.names('m', m)[E.perm('pm', m)], E.names('s', s)[E.perm('ps', s)]
    return E.atoms('m', m, distinct=True), E.atoms('s', s, distinct=True)


@harness('P08', configs=SZ, bool_obj=True, patch=patch_h5, bounds='up to 3x2 trials', assumptions=H5)
def ndx_h5(E, m, s):
    ms, ss = names(E, m, s, False)
    mask = E.sbool('k', (m, s))
    f = E.tmp('ndx.h5')
    TrialNdx(ms, ss, mask).save(f)
    r = TrialNdx.load(f)
    E.reach()
    E.same('models', r.model_set, ms)
    E.same('segments', r.seg_set, ss)
    E.same('mask', r.trial_mask, mask)


@harness('P08', configs=[dict(m=m, s=s, mc=mc, sc=sc, tc=tc, nm=nm) for m, s in ((1, 2), (2, 2), (3, 2))
                         for mc, sc, tc in ((0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 0, 2), (2, 1, 1)) for nm in (False, True)
                         if nm is False or mc + sc + tc],
         bool_obj=True, patch=patch_h5, bounds='up to 3x2 trials, up to 2 conditions of each kind', assumptions=H5)
def key_h5(E, m, s, mc, sc, tc, nm):
    ms, ss = names(E, m, s, False)
    tar, non = E.sbool('t', (m, s)), E.sbool('n', (m, s))
    for i in range(m):
        for j in range(s):
            E.assume(s_or(tar[i, j] != True, non[i, j] != True))    # noqa
    kw = {}
    for k, n, shp in (('model_cond', mc, (mc, m)), ('seg_cond', sc, (sc, s)), ('trial_cond', tc, (tc, m, s))):
        if n:
            kw[k] = E.sbool(k, shp)
            if nm:
                kw[k + '_name'] = E.atoms(k + '_name', n)
    f = E.tmp('key.h5')
    TrialKey(ms, ss, tar, non, **kw).save(f)
    r = TrialKey.load(f)
    E.reach()
    E.same('models', r.model_set, ms)
    E.same('segments', r.seg_set, ss)
    E.same('targets', r.tar, tar)
    E.same('nontargets', r.non, non)
    for k in ('model_cond', 'seg_cond', 'trial_cond', 'model_cond_name', 'seg_cond_name', 'trial_cond_name'):
        v = getattr(r, k)
        if k in kw:
            E.claim(k + ' survives', v is not None)
            E.same(k, v, kw[k])
        else:
            E.claim('no invented ' + k, v is None)


@harness('P08', configs=SZ, bool_obj=True, patch=patch_h5, round32=True, bounds='up to 3x2 scores', assumptions=H5)
def scores_h5(E, m, s):
    ms, ss = names(E, m, s, False)
    mask, v = E.sbool('k', (m, s)), E.real('v', (m, s))
    f = E.tmp('scores.h5')
    TrialScores(ms, ss, v, mask).save(f)
    r = TrialScores.load(f)
    E.reach()
    E.same('models', r.model_set, ms)
    E.same('segments', r.seg_set, ss)
    for i in range(m):
        for j in range(s):
            E.claim('mask', r.score_mask[i, j] == mask[i, j])
    E.eq('scores', r.scores, v, tol=1e-12)


def check_text(E, r, ms, ss, planes):
    """planes: list of (loaded matrix, original matrix)"""
    lm, ls = [str(x) for x in r.model_set], [str(x) for x in r.seg_set]
    E.claim('no invented names', set(lm) <= set(ms) and set(ls) <= set(ss))
    E.claim('no repeated names', len(set(lm)) == len(lm) and len(set(ls)) == len(ls))
    for a, b in planes:
        for i, x in enumerate(ms):
            for j, y in enumerate(ss):
                p, q = index(lm, x), index(ls, y)
                E.claim('trial', (p is not None and q is not None and bool(a[p, q])) == bool(b[i, j]))
    return lm, ls


@harness('P08', configs=[dict(m=m, s=s) for m, s in ((1, 2), (2, 2), (3, 2), (2, 3))], text=True,
         bounds='up to 3x2 trials, all masks with at least one trial')
def ndx_text(E, m, s):
    ms, ss = E.names('m', m)[::-1], E.names('s', s)[::-1]
    mask = E.bool('k', (m, s))
    if not mask.any():
        return
    f = E.tmp('ndx.txt')
    TrialNdx(ms, ss, mask.copy()).save(f)
    r = TrialNdx.load(f)
    E.reach()
    check_text(E, r, list(ms), list(ss), [(r.trial_mask, mask)])


@harness('P08', configs=[dict(m=m, s=s) for m, s in ((1, 2), (2, 2), (3, 1), (1, 3))], text=True,
         bounds='up to 2x2 / 3 trials, every labelling')
def key_text(E, m, s):
    ms, ss = E.names('m', m)[::-1], E.names('s', s)[::-1]
    lab = np.array([[E.choice('l%d%d' % (i, j), 3) for j in range(s)] for i in range(m)])
    if not (lab > 0).any():
        return
    f = E.tmp('key.txt')
    TrialKey(ms, ss, lab == 1, lab == 2).save(f)
    r = TrialKey.load(f)
    E.reach()
    check_text(E, r, list(ms), list(ss), [(r.tar, lab == 1), (r.non, lab == 2)])


@harness('P08', configs=[dict(m=m, s=s) for m, s in ((1, 2), (2, 2), (3, 2), (2, 3))], text=True,
         bounds='up to 3x2 scores, all masks with at least one score', assumptions=['numbers are written and read back as decimal numerals'])
def scores_text(E, m, s):
    ms, ss = E.names('m', m)[::-1], E.names('s', s)[::-1]
    mask, v = E.bool('k', (m, s)), E.real('v', (m, s))
    if not mask.any():
        return
    f = E.tmp('scores.txt')
    TrialScores(ms, ss, v.copy(), mask.copy()).save(f)
    r = TrialScores.load(f)
    E.reach()
    lm, ls = check_text(E, r, list(ms), list(ss), [(r.score_mask, mask)])
    for i, x in enumerate(ms):
        for j, y in enumerate(ss):
            if mask[i, j]:
                E.eq('score', E.detok(r.scores[index(lm, x), index(ls, y)]), v[i, j], tol=2e-6)
