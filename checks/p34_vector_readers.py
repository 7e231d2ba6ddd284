"""Readers of vectors for training and for trials: what vectors, of what classes, in what parts"""
import argparse
import numpy as np
from symx.harness import harness, s_and, s_or
from symx.fakeh5 import patch_h5
from symx.util import array, index
from hyperion.helpers import vector_reader as vrm, vector_class_reader as vcm, trial_data_reader as tdm, multi_test_trial_data_reader as mtm, classif_trial_data_reader as ctm
from hyperion.helpers import VectorReader, VectorClassReader, TrialDataReader, ClassifTrialDataReader
from hyperion.helpers.multi_test_trial_data_reader import MultiTestTrialDataReader
from hyperion.utils.utt2info import Utt2Info
from hyperion.utils.scp_list import SCPList
from hyperion.utils.trial_ndx import TrialNdx
from hyperion.utils.tensors import to3D_by_class, to3D_by_seq

TOL = 1e-9


def patch(env):
    """lists come from the file (their reading is P03, P04, P08) or are given as objects"""
    p = patch_h5(env)
    env.lists = {}

    def mk(base):
        class Stub(base):
            @classmethod
            def load(cls, fp, sep=' '):
                obj, s = env.lists[fp]
                assert s == sep, 'separator'
                return obj.copy()
        return Stub
    U, S = mk(Utt2Info), mk(SCPList)
    sets = [(vcm, 'Utt2Info', U), (tdm, 'Utt2Info', U), (mtm, 'Utt2Info', U), (vrm, 'SCPList', S)]
    p['setattrs'] = list(p.get('setattrs', [])) + sets
    return p


def put(E, obj, nm, sep=' '):
    fp = E.tmp(nm)
    if hasattr(E, 'lists'):
        E.lists[fp] = (obj, sep)
    else:
        obj.save(fp, sep=sep)
    return fp


class Affine(object):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def predict(self, x):
        return x * self.a + self.b


def store(E, keys, d=1, nm='v.h5', known=False):
    """vectors of a file, by key"""
    from hyperion.io.data_rw_factory import DataWriterFactory as DWF
    fp = E.tmp(nm)
    v = {k: array(E, [i + 0.5]) if known else E.real('v_%s' % k, d, lo=-5, hi=5) for i, k in enumerate(keys)}
    w = DWF.create('h5:' + fp)
    w.write(list(v.keys()), [E.typed(v[k], 'float64') for k in v])
    w.close()
    return 'h5:' + fp, v


def transf(E):
    if E.bool('transform'):
        return Affine(2.0, 0.5), lambda x: x * 2.0 + 0.5
    return None, lambda x: x


def keys_of(n):
    return np.array(['u%d' % ((i * 5 + 3) % 7) for i in range(n)])


@harness('P34', configs=[dict(sep=s, n=n) for s in (' ', ',') for n in (1, 3)], patch=patch, bounds='files of 4 vectors and lists of up to 3 of them in any order')
def plain(E, sep, n):
    """vectors of the list in its order, transformed, with the given separator"""
    src, v = store(E, keys_of(4), 2)
    q = E.perm('q', 4)[:n]
    key = keys_of(4)[np.array(q)]
    lst = put(E, SCPList(key, np.array(['f%d' % i for i in range(n)])), 'l.scp', sep)
    t, f = transf(E)
    px = ['vr', None][E.choice('prefix', 2)]
    args = {('vr_' if px else '') + 'vlist_sep': sep, 'other': 1}
    r = VectorReader(src, lst, t, **VectorReader.filter_args(px, **args))
    x = r.read()
    E.reach()
    E.claim('shape', x.shape == (n, 2))
    E.eq('vectors', x, f(np.stack([v[k] for k in key]).view(type(v[key[0]]))), TOL)


def groups(E, c):
    """items of each class in order, classes sorted"""
    out = []
    for i in range(len(c)):
        for g in out:
            if bool(c[g[0]] == c[i]):
                g.append(i)
                break
        else:
            out.append([i])
    done = []
    while out:
        k = 0
        for j in range(1, len(out)):
            if bool(c[out[j][0]] < c[out[k][0]]):
                k = j
        done.append(out.pop(k))
    return done


def content(E, x, ids, v, keys, f, items, nm='read'):
    """x, ids contain the given items (index, class)"""
    E.claim('number ' + nm, x.shape[0] == len(items) and len(ids) == len(items))
    for i, (u, k) in enumerate(items):
        E.eq('vector ' + nm, x[i], f(v[keys[u]]), TOL)
        E.claim('class ' + nm, int(ids[i]) == k)


CR = [dict(n=4, min_spc=a, max_spc=b, mode=m) for a in (1, 2, 3) for b, m in ((None, 'random'), (1, 'first'), (2, 'last'), (2, 'first'), (1, 'random'), (2, 'random'))]


@harness('P34', configs=CR, thorough=CR + [dict(c, n=5) for c in CR], patch=patch, bounds='4 (thorough 5) vectors of any classes; every choice of the generator')
def classes(E, n, min_spc, max_spc, mode):
    """classes with few vectors are left out, those with many are pruned"""
    keys = keys_of(n)
    src, v = store(E, keys)
    c = E.atoms('c', n)
    G = groups(E, c)
    lst = put(E, Utt2Info.create(keys, c), 'u2c', ',')
    t, f = (Affine(2.0, 0.5), lambda x: x * 2.0 + 0.5) if mode == 'last' else (None, lambda x: x)
    live = [g for g in G if len(g) >= min_spc]
    if not live:
        return
    with E.random_state():
        r = VectorClassReader(src, lst, t, vlist_sep=',', min_spc=min_spc, max_spc=max_spc, spc_pruning_mode=mode)
    E.reach()
    want = {}
    for k, g in enumerate(live):
        m = len(g) if max_spc is None else min(max_spc, len(g))
        if mode == 'random' and m < len(g):
            kept = [i for i in g if keys[i] in set(r.u2c.key)]
            E.claim('random size', len(kept) == m)
        else:
            kept = g[len(g) - m:] if mode == 'first' else g[:m]
        want.update({i: k for i in kept})
    items = [(i, want[i]) for i in range(n) if i in want]
    for _ in range(2):
        x, ids = r.read()
        content(E, x, ids, v, keys, f, items)
    names = r.class_names
    E.claim('number of classes', len(names) == len(live))
    for k, g in enumerate(live):
        E.claim('name', names[k] == c[g[0]])
    cnt = [sum(1 for i, j in items if j == k) for k in range(len(live))]
    E.claim('counts', [int(a) for a in r.samples_per_class] == cnt and int(r.max_samples_per_class) == max(cnt))
    extra = E.choice('extra', 2)
    x3, w = r.read(return_3d=True, max_length=max(cnt) + 1 if extra else 0)
    E.claim('shape of tensor', x3.shape == (len(live), max(cnt) + extra, 1) and w.shape == x3.shape[:2])
    for k in range(len(live)):
        its = [i for i, j in items if j == k]
        for p in range(x3.shape[1]):
            E.eq('tensor', x3[k, p], f(v[keys[its[p]]]) if p < len(its) else 0 * v[keys[0]], TOL)
            E.claim('weight', float(w[k, p]) == (1.0 if p < len(its) else 0.0))


CS = [dict(n=4, msize=1, over=0, mode='sequential'), dict(n=5, msize=2, over=1, mode='sequential'), dict(n=5, msize=2, over=0, mode='sequential'), dict(n=3, msize=1, over=0, mode='random'),
      dict(n=3, msize=2, over=1, mode='random'), dict(n=4, msize=1, over=0, mode='random'), dict(n=4, msize=2, over=0, mode='random_1subclass'), dict(n=4, msize=3, over=0, mode='random')]
CS = [dict(c, mins=m) for c in CS for m in (1, 2) if m <= c['msize']]


@harness('P34', configs=CS, patch=patch, bounds='up to 5 vectors of any classes; every choice of the generator')
def subclasses(E, n, msize, over, mode, mins):
    """classes are divided in subclasses of bounded size, of one class each; sequential ones cover it"""
    keys = keys_of(n)
    src, v = store(E, keys, known=True)
    c = E.atoms('c', n)
    G = groups(E, c)
    lst = put(E, Utt2Info.create(keys, c), 'u2c')
    once = True if n > 3 else E.bool('once')
    live = []
    need = 0
    for g in G:
        k = 1
        while len(g) > msize + (k - 1) * (msize - over):
            k += 1
        subs = [g] if len(g) <= msize else [g[i * (msize - over):i * (msize - over) + msize] for i in range(k)]
        if mode == 'sequential':
            live += [(s, None) for s in subs if len(s) >= mins]
        elif mode == 'random_1subclass':
            live += [(g, min(len(g), msize))] if len(g) >= mins else []
        else:
            live += [(g, min(len(g), msize))] * len(subs) if min(len(g), msize) >= mins else []
    if not live:
        return
    with E.random_state():
        r = VectorClassReader(src, lst, csplit_min_spc=mins, csplit_max_spc=msize, csplit_mode=mode, csplit_overlap=over, csplit_once=once)
        x, ids = r.read()
        E.reach()
        found = [[i for i in range(len(ids)) if int(ids[i]) == k] for k in range(max(int(a) for a in ids) + 1)]
        E.claim('number of subclasses', len(found) == len(live))
        # which vectors: values are known
        got = [[int(x[i, 0]) for i in g] for g in found]
        left = list(live)
        for g in got:
            E.claim('vectors of the file', all(0 <= i < n for i in g))
            E.claim('distinct', len(set(g)) == len(g))
            hit = None
            for j, (s, m) in enumerate(left):
                if (m is None and g == s) or (m is not None and len(g) == m and set(g) <= set(s)):
                    hit = j
                    break
            E.claim('subclass', hit is not None)
            if hit is not None:
                left.pop(hit)
        E.claim('sizes', [int(a) for a in sorted(r.samples_per_class)] == sorted(len(s) if m is None else m for s, m in live))


@harness('P34', configs=[dict(n=4)], patch=patch, bounds='4 vectors of any of 3 classes, every numbering of them')
def numbering(E, n):
    """classes are numbered as in the file"""
    keys = keys_of(n)
    src, v = store(E, keys)
    nm = np.array(['a', 'b', 'c'])
    c = [E.choice('c%d' % i, 3) for i in range(n)]
    lst = put(E, Utt2Info.create(keys, nm[c]), 'u2c')
    p = E.perm('p', 3)
    fp = E.tmp('c2i')
    with open(fp, 'w') as f:
        for i in range(3):
            f.write('%s %d\n' % (nm[i], p[i]))
    r = VectorClassReader(src, lst, class2int_file=fp)
    x, ids = r.read()
    E.reach()
    content(E, x, ids, v, keys, lambda y: y, [(i, int(p[c[i]])) for i in range(n)])
    E.claim('names', [str(a) for a in r.class_names] == [str(nm[list(p).index(k)]) for k in range(3)])


@harness('P34', configs=[dict(pre=p) for p in (None, 'vcr')], bounds='defaults and given values')
def arguments(E, pre):
    """command line arguments reach the constructor with values it can use"""
    p = argparse.ArgumentParser()
    VectorClassReader.add_argparse_args(p, pre)
    d = VectorClassReader.filter_args(pre, **vars(p.parse_args([])))
    c = E.atoms('c', 4)
    u = Utt2Info.create(keys_of(4), c)
    E.reach()
    a = {k[7:]: d[k] for k in ('csplit_min_spc', 'csplit_mode', 'csplit_overlap')}
    with E.random_state() as _:
        w = VectorClassReader._split_classes(u, a['min_spc'], 1, a['mode'], a['overlap'], np.random.RandomState(1))
    E.claim('all vectors are in some subclass', len(w) == 4 if a['mode'] != 'sequential' else True)
    o = '--' + ('' if pre is None else pre + '-')
    s = p.parse_args([o + 'csplit-overlap', '1', o + 'csplit-mode', 'sequential', o + 'csplit-min-spc', '2', o + 'csplit-max-spc', '2', o + 'min-spc', '2', o + 'max-spc', '3', o + 'no-csplit-once', o + 'vcr-seed', '7', o + 'vlist-sep', ','])
    d = VectorClassReader.filter_args(pre, **vars(s))
    E.claim('values', d == dict(vlist_sep=',', class2int_file=None, min_spc=2, max_spc=3, spc_pruning_mode='random', csplit_min_spc=2, csplit_max_spc=2, csplit_mode='sequential', csplit_overlap=1, csplit_once=False, vcr_seed=7))
    E.claim('overlap is a number of vectors', isinstance(d['csplit_overlap'], int))


SETS = ('enroll-test', 'enroll-coh', 'coh-test', 'coh-coh')


@harness('P34', configs=[dict(es=e, mp=m, sp=s) for e in SETS for m, s in ((1, 1), (2, 1), (1, 2), (2, 2))], patch=patch, bounds='2 models of 4 enrollment vectors, 2 segments, 2 of cohort; every mask, part and assignment of vectors')
def trials(E, es, mp, sp):
    """vectors of the enrollment and test sides of the trials of a part"""
    ek, sk, ck = ['e2', 'e0', 'e3', 'e1'], ['s1', 's0'], ['c1', 'c0']
    src, v = store(E, ek + sk + ck)
    models = np.array(['m1', 'm0', 'm2'])
    if es.startswith('enroll'):
        q = [E.choice('m%d' % i, 3) for i in range(4)]
        E.assume(all(k in q for k in (0, 1)))
    en = put(E, Utt2Info.create(np.array(ek), models[q] if es.startswith('enroll') else np.array(ek)), 'enroll', ',')
    te = put(E, Utt2Info.create(np.array(ck), np.array(['x', 'y'])), 'test', ',')
    use = [0, 1]
    mask = np.array([[True, E.choice('mask', 2) == 1], [False, True]])
    nd = E.tmp('ndx.h5')
    TrialNdx(models[:2], np.array(sk), mask).save(nd)
    mi, si = E.choice('mi', mp) + 1, E.choice('si', sp) + 1
    t, f = transf(E)
    r = TrialDataReader(src, nd, en, te, t, tlist_sep=',', model_idx=mi, num_model_parts=mp, seg_idx=si, num_seg_parts=sp, eval_set=es)
    xe, xt, info, ndx = r.read()
    E.reach()
    ms = models[:2] if es.startswith('enroll') else np.array(ek)
    ss = sk if es.endswith('test') else ck
    h = len(ms) // mp
    M = list(ms[h * (mi - 1):h * mi])
    T = list(ss) if sp == 1 else [ss[si - 1]]
    E.claim('models', list(ndx.model_set) == M)
    E.claim('segments', list(ndx.seg_set) == T)
    for a in range(len(M)):
        for b in range(len(T)):
            w = bool(mask[list(ms).index(M[a]), ss.index(T[b])]) if es == 'enroll-test' else True
            E.claim('mask', bool(ndx.trial_mask[a, b]) == w)
    E.claim('size of test', xt.shape == (len(T), 1))
    for b, s in enumerate(T):
        E.eq('test vector', xt[b], f(v[s]), TOL)
    if es.startswith('enroll'):
        keep = [i for i in range(4) if models[q[i]] in M]
        E.claim('enrolled', [str(a) for a in info] == [str(models[q[i]]) for i in keep])
    else:
        keep = [i for i in range(4) if ek[i] in M]
    E.claim('size of enrollment', xe.shape == (len(keep), 1))
    for a, i in enumerate(keep):
        E.eq('enrollment vector', xe[a], f(v[ek[i]]), TOL)


@harness('P34', configs=[dict(mp=m, sp=s) for m, s in ((1, 1), (2, 1), (1, 2), (2, 2))], patch=patch, bounds='2 models and 2 segments of 3 vectors each in any assignment')
def multi(E, mp, sp):
    """several vectors of each test segment"""
    ek, sk = ['e2', 'e0', 'e3'], ['t1', 't0', 't2']
    src, v = store(E, ek + sk)
    models, segs = np.array(['m1', 'm0']), np.array(['s1', 's0'])
    q, o = [[E.choice('%s%d' % (a, i), 2) for i in range(3)] for a in 'mo']
    E.assume(all(k in q and k in o for k in (0, 1)))
    en = put(E, Utt2Info.create(np.array(ek), models[q]), 'enroll')
    su = put(E, Utt2Info.create(np.array(sk), segs[o]), 'sub')
    nd = E.tmp('ndx.h5')
    mask = np.array([[True, False], [True, True]])
    TrialNdx(models, segs, mask).save(nd)
    mi, si = E.choice('mi', mp) + 1, E.choice('si', sp) + 1
    r = MultiTestTrialDataReader(src, nd, en, None, su, None, model_idx=mi, num_model_parts=mp, seg_idx=si, num_seg_parts=sp)
    xe, xt, info, ndx, sub = r.read()
    E.reach()
    M = list(models) if mp == 1 else [models[mi - 1]]
    T = list(segs) if sp == 1 else [segs[si - 1]]
    E.claim('trials', list(ndx.model_set) == M and list(ndx.seg_set) == T)
    E.claim('mask', all(bool(ndx.trial_mask[a, b]) == bool(mask[list(models).index(x), list(segs).index(y)]) for a, x in enumerate(M) for b, y in enumerate(T)))
    for x, keys, lab, names, keep, got in ((xe, ek, models, q, M, info), (xt, sk, segs, o, T, sub)):
        k = [i for i in range(3) if lab[names[i]] in keep]
        E.claim('labels', [str(a) for a in got] == [str(lab[names[i]]) for i in k])
        E.claim('size', x.shape == (len(k), 1))
        for a, i in enumerate(k):
            E.eq('vector', x[a], v[keys[i]], TOL)


@harness('P34', configs=[dict(sp=s, field=f) for s in (1, 2) for f in ('', '.x')], patch=patch, bounds='2 classes and 4 segments')
def classif(E, sp, field):
    """all classes against the segments of a part"""
    from hyperion.io import HypDataWriter
    sk = ['s3', 's0', 's1', 's2']
    fp = E.tmp('c.h5')
    v = E.real('v', (4, 2), lo=-5, hi=5)
    w = HypDataWriter(fp)
    w.write(np.array(sk), field, v)
    ci, te = E.tmp('c2i'), E.tmp('test')
    with open(ci, 'w') as f:
        f.write('b 0\na 1\n')
    with open(te, 'w') as f:
        f.write(''.join('%s x\n' % s for s in sk))
    t, g = transf(E)
    si = E.choice('si', sp) + 1
    r = ClassifTrialDataReader(fp, ci, te, t, v_field=field, seg_idx=si, num_seg_parts=sp)
    x, ndx = r.read()
    E.reach()
    k = range(4) if sp == 1 else range(2 * si - 2, 2 * si)
    E.claim('trials', list(ndx.model_set) == ['b', 'a'] and list(ndx.seg_set) == [sk[i] for i in k] and bool(np.all(ndx.trial_mask)) and ndx.trial_mask.shape == (2, len(k)))
    E.eq('vectors', x, g(v[list(k)]), TOL)


@harness('P34', configs=[dict(n=3, extra=e) for e in (0, 1)], bounds='3 sequences of 1 to 3 vectors')
def by_seq(E, n, extra):
    """sequences padded with zeros, weight one where there are vectors"""
    ln = [E.choice('len%d' % i, 3) + 1 for i in range(n)]
    x = [E.real('x%d' % i, (l, 2), lo=-5, hi=5) for i, l in enumerate(ln)]
    m = max(ln) + extra
    y, w = to3D_by_seq(x, m if extra else 0)
    E.reach()
    E.claim('shape', y.shape == (n, m, 2) and w.shape == (n, m))
    for i in range(n):
        E.eq('sequence', y[i, :ln[i]], x[i], TOL)
        if ln[i] < m:
            E.eq('padding', y[i, ln[i]:], np.zeros((m - ln[i], 2)), TOL)
        E.claim('weights', [float(a) for a in w[i]] == [1.0] * ln[i] + [0.0] * (m - ln[i]))
