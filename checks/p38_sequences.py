"""Readers of sequences: epochs, subsequences, posteriors and classes"""
import argparse
import numpy as np
from symx import symnp
from symx.harness import harness, s_and, s_or, EnvRng
from symx.symbytes import Disk, patch_bytes
from symx.fakeh5 import patch_h5
from symx.prog import Program, opts
from hyperion.io.hyp_data_reader import HypDataReader
from hyperion.io.hyp_data_writer import HypDataWriter
from hyperion.pdfs import DiagGMM
from hyperion.transforms import TransformList, MVN
from hyperion.helpers import sequence_reader as sr, sequence_post_reader as pr
from hyperion.helpers import SequenceReader, SequenceClassReader, SequencePostReader, SequencePostClassReader

TOL = 1e-6
ELBO = Program('eval-elbo-ubm.py')


def num(E, x):
    v = E.detok(x)
    return float(v) if isinstance(v, str) else v


class Piece(object):
    def __init__(self, key, off, n):
        self.key, self.off, self.n = key, off, n


class Dataset(object):
    def __init__(self, key, n):
        self.key, self.shape = key, (n, 2)

    def __getitem__(self, s):
        assert s.step is None
        return Piece(self.key, s.start, s.stop - s.start)


class Stub(HypDataReader):
    """the reader, with arrays of any length that tell what is asked of them"""
    def __init__(self, env, name):
        self.f = {k: Dataset(k, n) for k, n in env.lens.items()}

    def read(self, keys, field='', return_tensor=False):
        return [Piece(k, 0, self.f[k + field].shape[0]) for k in keys]


def patch(env):
    env.lens = {}
    return dict(extra=[], setattrs=[(symnp, 'INT_OBJ', [True]), (sr, 'HypDataReader', lambda p: Stub(env, p))])


class Rng(EnvRng):
    """any outcome; generators of the same seed have the same"""
    def __init__(self, env, seed=None):
        EnvRng.__init__(self, env, 'r%s_' % seed)

    def make(self, seed=None):
        return Rng(self.env, seed)

    def randint(self, low, high=None, size=None, dtype=int):
        E = self.env
        assert size is None and high is not None
        E.claim('range of the generator', low < high)
        v = E.int(self._nm(), 0, 12)
        E.assume(v >= low)
        E.assume(v < high)
        return v


def corpus(E, n, hi, lo=1):
    """files of the archive and the script, names and lengths"""
    keys = ['k%d' % ((i * 3 + 2) % 5) for i in range(n)]
    lens = [E.int('len%d' % i, lo, hi) for i in range(n)]
    dp, lp = E.tmp('x.h5'), E.tmp('scp')
    if hasattr(E, 'lens'):
        E.lens.update(zip(keys, lens))
    else:
        w = HypDataWriter(dp)
        for i, k in enumerate(keys):
            w.write(k, '', np.array([[i, r] for r in range(int(lens[i]))], dtype='float32'))
        w.f.close()
    with open(lp, 'w') as f:
        f.write(''.join('s%d=%s\n' % (i, k) for i, k in enumerate(keys)))
    return dp, lp, keys, dict(zip(keys, lens))


def piece(E, x, key, keys):
    if isinstance(x, Piece):
        E.claim('sequence of the key', x.key == key)
        return x.off, x.n
    E.claim('sequence of the key', len(x) == 0 or bool(np.all(x[:, 0] == keys.index(key)) and np.all(np.diff(x[:, 1]) == 1)))
    return (int(x[0, 1]) if len(x) else 0), len(x)


def least(a, b):
    return a if bool(a <= b) else b


@harness('P38', configs=[dict(n=n, b=b, shuf=s) for n, b, s in ((1, 1, 0), (2, 1, 1), (2, 2, 0), (3, 1, 0), (3, 2, 0))], patch=patch, bounds='up to 3 sequences of up to 4 frames, any minimum length, every shuffle; two epochs')
def whole(E, n, b, shuf):
    """an epoch has every sequence of at least the minimum length once, whole"""
    dp, lp, keys, L = corpus(E, n, 4)
    mn = E.cint('min', 0, 3)
    with E.random_state(Rng(E).make()):
        r = SequenceReader(dp, lp, batch_size=b, shuffle_seqs=bool(shuf), min_seq_length=mn, seqr_seed=E.choice('seed', 2))
        E.claim('sequences', r.num_seqs == n)
        E.eq('frames', r.total_length, sum(L.values()))
        good = [k for k in keys if mn == 0 or bool(L[k] >= mn)]
        E.assume(len(good) >= b)
        E.claim('longest', s_and(*[r.max_batch_seq_length >= L[k] for k in keys]))
        E.claim('number of subsequences', int(r.num_total_subseqs) == len(good))
        E.claim('batches', r.num_batches == len(good) // b)
        E.reach()
        for t in range(2):
            seen = []
            for i in range(len(good) // b):
                x, ks = r.read()[:2]
                E.claim('batch', len(x) == b and len(ks) == b)
                for y, k in zip(x, ks):
                    off, m = piece(E, y, k, keys)
                    E.claim('whole sequences', s_and(off == 0, m == L[k]))
                    seen.append(str(k))
            E.claim('once per epoch', len(set(seen)) == len(seen) and set(seen) <= set(good))
            if not shuf:
                E.claim('in order', seen == good[:len(seen)])


SPL = [dict(n=n, b=b, mx=mx, ov=ov, hi=hi) for n, b, mx, ov, hi in ((1, 1, 3, 0, 7), (1, 1, 3, 1, 6), (1, 2, 2, 0, 6), (2, 1, 2, 0, 4), (2, 2, 3, 1, 5), (2, 4, 2, 0, 6), (2, 3, 2, 1, 4))]


def counts(E, L, keys, mn, mx, ov):
    out = {}
    for k in keys:
        m = 0
        while bool(m * (mx - ov) + mx <= L[k]):
            m += 1
        if bool(L[k] - m * (mx - ov) >= mn):
            m += 1
        out[k] = m
    return out


@harness('P38', configs=[dict(shuf=0, **c) for c in SPL] + [dict(n=2, b=1, mx=2, ov=0, hi=4, shuf=1), dict(n=2, b=2, mx=2, ov=1, hi=3, shuf=1)], patch=patch, bounds='up to 2 sequences of up to 7 frames, minimum lengths up to the maximum of 2 or 3; every shuffle; two epochs')
def sequential(E, n, b, mx, ov, hi, shuf):
    """subsequences follow each other from the start of each sequence, in turns, up to a rest shorter than the minimum"""
    dp, lp, keys, L = corpus(E, n, hi)
    mn = E.cint('min', 1, mx)
    with E.random_state(Rng(E).make()):
        r = SequenceReader(dp, lp, batch_size=b, shuffle_seqs=bool(shuf), min_seq_length=mn, max_seq_length=mx, seq_split_mode='sequential', seq_split_overlap=ov)
        need = counts(E, L, keys, mn, mx, ov)
        tot = sum(need.values())
        E.assume(tot >= b)
        E.claim('number of subsequences', [int(v) for v in r.num_subseqs] == [need[k] for k in keys] and int(r.num_total_subseqs) == tot)
        E.claim('longest', r.max_batch_seq_length == mx)
        E.claim('batches', r.num_batches == tot // b)
        E.reach()
        for t in range(2):
            cnt = {k: 0 for k in keys}
            for i in range(tot // b):
                x, ks = r.read()[:2]
                E.claim('batch', len(x) == b and len(ks) == b)
                for y, k in zip(x, ks):
                    k = str(k)
                    E.claim('turns', cnt[k] < need[k] and all(cnt[j] >= min(need[j], cnt[k] + (not shuf and keys.index(j) < keys.index(k))) for j in keys))
                    off, m = piece(E, y, k, keys)
                    E.claim('follows', off == cnt[k] * (mx - ov))
                    E.claim('length', m == least(mx, L[k] - off))
                    cnt[k] += 1


@harness('P38', configs=[dict(one=o, **c) for c in SPL for o in (0, 1) if not (o and c['b'] > c['n'])], patch=patch, bounds='up to 2 sequences of up to 7 frames, minimum lengths up to the maximum of 2 or 3, every draw; two epochs')
def random(E, one, n, b, mx, ov, hi):
    """random subsequences are inside their sequences, as long as possible, and as many per sequence as the mode gives"""
    dp, lp, keys, L = corpus(E, n, hi)
    mn = E.cint('min', 1, mx)
    with E.random_state(Rng(E).make()):
        r = SequenceReader(dp, lp, batch_size=b, shuffle_seqs=False, min_seq_length=mn, max_seq_length=mx, seq_split_mode='random_slice_1seq' if one else 'random_slice', seq_split_overlap=ov)
        need = {k: int(bool(L[k] >= mn)) for k in keys} if one else counts(E, L, keys, mn, mx, ov)
        tot = sum(need.values())
        E.assume(tot >= b)
        E.claim('batches', r.num_batches == tot // b)
        E.reach()
        for t in range(2 if n == 1 else 1):
            cnt = {k: 0 for k in keys}
            for i in range(tot // b):
                x, ks = r.read()[:2]
                E.claim('batch', len(x) == b and len(ks) == b)
                for y, k in zip(x, ks):
                    k = str(k)
                    cnt[k] += 1
                    E.claim('turns', cnt[k] <= need[k])
                    off, m = piece(E, y, k, keys)
                    E.claim('in the sequence', s_and(off >= 0, off + m <= L[k]))
                    E.claim('length', m == least(mx, L[k]))
                    E.observe('offset', off)
            E.claim('whole batches', sum(cnt.values()) == tot // b * b)


def patch2(env):
    p = patch_bytes(env)
    p['extra'] = list(p['extra']) + list(patch_h5(env)['extra'])
    p['setattrs'] = [x for x in p['setattrs'] if x[1] != 'INT_OBJ']
    return p


class Twice(object):
    def predict(self, x):
        return 2 * x + 1


MODES = ('whole', 'sequential', 'random_slice', 'random_slice_1seq', 'random_samples', 'random_samples_1seq')


@harness('P38', configs=[dict(cls=c, post=p, mode=m) for c in (0, 1) for p in (0, 1) for m in MODES if not ('samples' in m and (p or c and m == 'random_samples'))], patch=patch2, bounds='2 sequences of 3 and 2 frames, any values, posteriors of 2 of 4 components, every draw and shuffle')
def values(E, cls, post, mode):
    """the batches have the features, preprocessed, the posteriors of the same frames in their components, and the classes"""
    lens = [3, 2]
    keys = ['b', 'a']
    x = {k: E.typed(E.real('x%d' % i, (lens[i], 2), lo=-5, hi=5), 'float32') for i, k in enumerate(keys)}
    q = {k: E.typed(E.real('q%d' % i, (lens[i], 2), lo=0, hi=1), 'float32') for i, k in enumerate(keys)}
    ix = {k: np.array([[(t + i) % 4, (t + 2 * i + 1 + (i and t)) % 4] for t in range(lens[i])], dtype='float32') for i, k in enumerate(keys)}
    assert all(a != b for v in ix.values() for a, b in v)
    c = {k: E.choice('c%d' % i, 3) if cls else 0 for i, k in enumerate(keys)}
    dp, pp, lp, cp = E.tmp('x.h5'), E.tmp('p.h5'), E.tmp('scp'), E.tmp('classes')
    w = HypDataWriter(dp)
    w.write(keys, '.f', [x[k] for k in keys])
    w.f.close()
    w = HypDataWriter(pp)
    for k in keys:
        w.write(k, '.r', q[k])
        w.write(k, '.index', ix[k])
    w.f.close()
    with open(lp, 'w') as f:
        f.write(''.join('s%d=%s\n' % (c[k], k) for k in keys))
    with open(cp, 'w') as f:
        f.write('s2 4\ns0 2\ns1 1\n')
    kw = dict(seq_field='.f', shuffle_seqs=E.bool('shuffle') if mode == 'whole' else False, batch_size=2 if mode == 'whole' else 1, preproc=Twice() if E.bool('preproc') else None)
    if mode != 'whole':
        kw.update(max_seq_length=2, seq_split_mode=mode)
    td = mode == 'whole' and E.bool('tensor')
    top = 4 if td and E.bool('longer') else 0
    Lm = top or 3
    with E.random_state(E.rng()):
        args = (dp, lp) + ((pp,) if post else ()) + ((cp,) if cls else ())
        if post:
            kw['num_comp'] = 4
        r = {(0, 0): SequenceReader, (1, 0): SequenceClassReader, (0, 1): SequencePostReader, (1, 1): SequencePostClassReader}[cls, post](*args, **kw)
        n = r.num_batches
        E.claim('batches', n == (1 if mode == 'whole' else 2 if '1seq' in mode else 3))
        for t in range(n):
            got = list(r.read(return_3d=td, max_seq_length=top))
            E.reach()
            E.claim('values of a batch', len(got) == 2 + post + cls + td)
            y = got.pop() if cls else None
            ks = [str(k) for k in got.pop()]
            wt = got.pop() if td else None
            if mode == 'whole':
                E.claim('sequences', sorted(ks) == sorted(keys))
            else:
                E.claim('size', len(ks) == 1 and ks[0] in keys)
            xs = got[0]
            for i, k in enumerate(ks):
                L = lens[keys.index(k)]
                z = 2 * x[k] + 1 if kw['preproc'] else x[k]
                m = L if mode == 'whole' else 2
                if mode == 'sequential':
                    m, at = (2, [0]) if not (k == 'b' and t == 2) else (1, [2])
                elif mode == 'whole':
                    at = [0]
                else:
                    at = range(L - m + 1)
                if td:
                    E.eq('weights', wt[i], [1] * L + [0] * (Lm - L))
                    E.eq('padding', xs[i][L:], np.zeros((Lm - L, 2)))
                v = np.asarray(xs[i])[:m] if td else xs[i]
                E.claim('shape', v.shape == (m, 2))

                def rows(ii):
                    cs = [v[j, e] == z[u, e] for j, u in enumerate(ii) for e in range(2)]
                    if post:
                        p = got[1][i]
                        for j, u in enumerate(ii):
                            d = {int(ix[k][u, e]): q[k][u, e] for e in range(2)}
                            cs += [p[j, e] == d.get(e, 0) for e in range(4)]
                    return s_and(*cs)
                if post:
                    E.claim('shape of posteriors', got[1][i].shape == ((Lm if td else m), 4))
                if 'samples' in mode:
                    at = [(a, b) for a in range(L) for b in range(a, L)]
                else:
                    at = [tuple(range(a, a + m)) for a in at]
                E.claim('frames', s_or(*[rows(a) for a in at]))
                if cls:
                    E.claim('class', [float(a) for a in y[i]] == [float('201'[a] == str(c[k])) for a in range(3)])


@harness('P38', configs=[dict(post=p) for p in (0, 1)], patch=patch2, bounds='2 sequences of 3 and 2 frames; parts of one of them')
def in_order(E, post):
    """sequences are read one by one in the order of the list, of the whole list or of a part of it"""
    lens, keys = [3, 2], ['b', 'a']
    x = [E.typed(E.real('x%d' % i, (lens[i], 2), lo=-5, hi=5), 'float32') for i in range(2)]
    q = [E.typed(E.real('q%d' % i, (lens[i], 1), lo=0, hi=1), 'float32') for i in range(2)]
    dp, pp, lp = E.tmp('x.h5'), E.tmp('p.h5'), E.tmp('scp')
    w = HypDataWriter(dp)
    w.write(keys, '', x)
    w.f.close()
    w = HypDataWriter(pp)
    w.write(keys, '.r', q)
    w.write(keys, '.index', [np.full((n, 1), 1, dtype='float32') for n in lens])
    w.f.close()
    with open(lp, 'w') as f:
        f.write('s0 b\ns1 a\n')
    parts = 1 + E.choice('parts', 2)
    part = 1 + E.choice('part', parts)
    kw = dict(scp_sep=' ', part_idx=part, num_parts=parts, seq_field='', other=3, num_comp=2)
    cls = SequencePostReader if post else SequenceReader
    for pre in (None, 'v'):
        a = cls.filter_eval_args(pre, **({'v_' + k: v for k, v in kw.items()} if pre else kw))
        E.claim('arguments', a == {k: v for k, v in kw.items() if k != 'other' and (post or k != 'num_comp')})
        ps = argparse.ArgumentParser()
        cls.add_argparse_eval_args(ps, pre)
        d = vars(ps.parse_args([('--v-' if pre else '--') + 'num-parts', '2']))
        p_ = 'v_' if pre else ''
        E.claim('options', {k: d[p_ + k] for k in a if k != 'num_comp'} == dict(scp_sep='=', part_idx=1, num_parts=2, seq_field=''))
        E.claim('option of components', not post or d.get(p_ + 'num_comp') == 2048)
        ps = argparse.ArgumentParser()
        cls.add_argparse_args(ps, pre)
        d = cls.filter_args(pre, **vars(ps.parse_args([])))
        E.claim('training options', d['max_seq_length'] is None and d['shuffle_seqs'] is True and d['seqr_seed'] == 1024 and d['seq_split_mode'] == 'random_slice')
    d['scp_sep'] = ' '
    r = cls(*((dp, lp, pp) if post else (dp, lp)), **d)
    E.claim('readable with the default options', len(r.read()[0]) == 1)
    a = dict(a, shuffle_seqs=False, preproc=Twice() if E.bool('preproc') else None)
    r = cls(*((dp, lp, pp) if post else (dp, lp)), **a)
    want = [0, 1] if parts == 1 else [part - 1]
    E.claim('sequences', r.num_seqs == len(want))
    E.reach()
    for i in want:
        got = r.read_next_seq()
        E.claim('key', got[-1] == keys[i])
        E.claim('shape', got[0].shape == (lens[i], 2))
        E.eq('features', got[0], 2 * x[i] + 1 if a['preproc'] else x[i], TOL)
        if post:
            E.eq('posteriors', got[1], [[0, q[i][t, 0]] for t in range(lens[i])], TOL)


@harness('P38', configs=[dict(K=1, pre=p) for p in (0, 1)] + [dict(K=2, pre=0)], patch=patch2, text=True, bounds='3 sequences of 1 or 2 frames of dimension 1, a given mixture of one component (any values) or two (three values of each frame); parts of them')
def evidence(E, K, pre):
    """eval-elbo-ubm writes the total evidence of the preprocessed sequences and its average per frame"""
    lens, keys = [1, 2, 1], ['b', 'c', 'a']
    if K == 1:
        x = [E.typed(E.real('x%d' % i, (n, 1), lo=-2, hi=2), 'float32') for i, n in enumerate(lens)]
    else:
        x = [np.array([[(-1.5, 0.0, 1.0)[E.choice('x%d_%d' % (i, t), 3)]] for t in range(n)], dtype='float32') for i, n in enumerate(lens)]
    dp, lp, mp, tp, op = E.tmp('x.h5'), E.tmp('scp'), E.tmp('m.h5'), E.tmp('t.h5'), E.tmp('out')
    w = HypDataWriter(dp)
    w.write(keys, '', x)
    w.f.close()
    with open(lp, 'w') as f:
        f.write(''.join('s%s=%s\n' % (k, k) for k in keys))
    g = DiagGMM(mu=np.array([[0.5], [-1.]][:K]), Lambda=np.array([[2.], [0.5]][:K]), pi=np.array([[1.], [0.25, 0.75]][K - 1]), x_dim=1, num_comp=K)
    g.initialize()
    g.save(mp)
    if pre:
        TransformList([MVN(mu=np.array([0.5]), s=np.array([0.5]), name='t')]).save(tp)
    parts = 1 + E.choice('parts', 2)
    part = 1 + E.choice('part', parts)
    E.reach()
    ELBO.main(*opts(seq_file=dp, file_list=lp, model_file=mp, preproc_file=tp if pre else None, output_file=op, part_idx=part, num_parts=parts))
    mine = [0, 1, 2] if parts == 1 else [[2], [0, 1]][part - 1]
    z = [(x[i] - 0.5) * 2 if pre else x[i] for i in mine]
    tot = sum(g.elbo(v) for v in z)
    f = open(op).read().split()
    E.claim('format', f[:2] == ['Total', 'ELBO:'] and f[3] == 'ELBO_NORM' and len(f) == 5)
    for nm, t, m in (('evidence', f[2], 1), ('average', f[4], sum(len(v) for v in z))):
        d = num(E, t) - tot / m
        E.claim(nm, s_and(d <= 1e-4, d >= -1e-4))
