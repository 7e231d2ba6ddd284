"""Batches of subsequences: bounds, coverage, balance, labels and reproducibility"""
import numpy as np
from symx import symnp
from symx.harness import harness, s_and, s_or, EnvRng
from symx.util import array
from hyperion.generators import sequence_batch_generator_v1 as g1, sequence_batch_generator_v2 as g2
from hyperion.generators import SequenceBatchGeneratorV1 as V1, SequenceBatchGeneratorV2 as V2
from hyperion.utils.utt2info import Utt2Info

TOP = 12


class Piece(object):
    def __init__(self, key, off, n):
        self.key, self.off, self.n = key, off, n


class Stub(object):
    """reader (P13) that tells what it is asked for"""
    def __init__(self, lens):
        self.lens, self.asked = lens, []

    def read_num_rows(self, keys):
        out = np.empty(len(keys), dtype=object)
        for i, k in enumerate(keys):
            out[i] = self.lens[k]
        r = out.view(symnp.SymArray)
        r._dt = np.dtype(int)
        return r

    def read(self, keys, row_offset=None, num_rows=None):
        return [Piece(k, 0 if row_offset is None else row_offset[i], self.lens[k] if num_rows is None else num_rows[i]) for i, k in enumerate(keys)]


def patch(env):
    env.stubs = {}

    class F(object):
        @staticmethod
        def create(spec, path_prefix=None, transform=None, scp_sep=' '):
            assert transform is None and scp_sep == ' '
            return env.stubs[spec]

    class U(Utt2Info):
        @classmethod
        def load(cls, fp, sep=' '):
            return env.stubs[fp].copy()
    return dict(extra=[], setattrs=[(symnp, 'INT_OBJ', [True]), (g1, 'RF', F), (g2, 'RF', F), (g1, 'Utt2Info', U), (g2, 'Utt2Info', U)])


class Rng(EnvRng):
    """any outcome, the same for the same seed and history; after the first draw out of lot only the good ones"""
    lot, good = None, ()

    def __init__(self, env, seed=None, memo=None):
        EnvRng.__init__(self, env, 'r%s_' % seed)
        self.memo = {} if memo is None else memo

    def make(self, seed=None):
        r = Rng(self.env, seed, self.memo)
        r.lot, r.good = self.lot, self.good
        return r

    def _once(self, f, *a):
        k = self.name + str(self.n + 1)
        if k not in self.memo:
            self.memo[k] = f(*a)
        else:
            self.n += 1
        return self.memo[k]

    def shuffle(self, x):
        p = self._once(lambda n: self.env.perm(self._nm(), n), len(x))
        x[...] = np.array(x, copy=True)[p]

    def randint(self, low, high=None, size=None, dtype=int):
        if size is not None:
            return np.array([int(self.randint(low, high)) for _ in range(size[0])])
        return self._once(self._one, low, high)

    def _one(self, low, high):
        E = self.env
        E.claim('range of the generator', low < high)
        nm = self._nm()
        v = E.int(nm, 0, TOP)
        E.assume(v >= low)
        E.assume(v < high)
        if isinstance(low, (int, np.integer)) and low == 0 and isinstance(high, (int, np.integer)):
            v = int(v)
            if high == self.lot and not self.memo.setdefault('free', nm) == nm:
                E.assume(v in self.good)
        return v


def corpus(E, n, lo=1, lens=None, cls=None, hi=TOP):
    """specifier and table of sequences of any length"""
    keys = ['u%d' % ((i * 3 + 2) % 5) for i in range(n)]
    lens = [E.int('len%d' % i, lo, hi) for i in range(n)] if lens is None else lens
    cls = np.array(['c%d' % (i % 2) for i in range(n)] if cls is None else cls)
    u = Utt2Info.create(np.array(keys), cls)
    L = dict(zip(keys, lens))
    if hasattr(E, 'stubs'):
        E.stubs['data'], E.stubs['list'] = Stub(L), u
        return 'data', 'list', keys, L, dict(zip(keys, cls))
    from hyperion.io.data_rw_factory import DataWriterFactory as DWF
    fp, lp = E.tmp('x.h5'), E.tmp('u2c')
    w = DWF.create('h5:' + fp)
    for i, k in enumerate(keys):
        w.write([k], [np.array([[i, r] for r in range(int(lens[i]))], dtype='float32')])
    w.close()
    u.save(lp)
    return 'h5:' + fp, lp, keys, L, dict(zip(keys, cls))


def piece(x, key, keys):
    if isinstance(x, Piece):
        assert x.key == key
        return x.off, x.n
    assert len(x) > 0 and np.all(x[:, 0] == keys.index(key)) and np.all(np.diff(x[:, 1]) == 1)
    return int(x[0, 1]), len(x)


def one_hot(E, nm, y, want, m):
    E.claim(nm + ' shape', y.shape == (len(want), m))
    for i, k in enumerate(want):
        E.claim(nm, [float(a) for a in y[i]] == [1.0 if j == k else 0.0 for j in range(m)])


CR = [dict(n=2, b=2, it=1, auto=a, shuf=s) for a in (0, 1) for s in (0, 1)] + [dict(n=3, b=2, it=2, auto=0, shuf=0), dict(n=3, b=3, it=1, auto=0, shuf=1)]


@harness('P33', configs=CR, patch=patch, bounds='up to 3 sequences of up to 12 frames, any limits of the lengths, every shuffle and draw; two epochs')
def random(E, n, b, it, auto, shuf):
    """subsequences of the sequences of the list in turns, within the limits of their lengths"""
    d, l, keys, L, C = corpus(E, n)
    lo, hi = (None, None) if auto else (E.int('min', 1, TOP), E.int('max', 1, TOP))
    if not auto:
        E.assume(lo <= hi)
    with E.random_state(Rng(E).make()):
        g = V1(d, l, batch_size=b, iters_per_epoch=it, gen_method='random', min_seq_length=lo, max_seq_length=hi, shuffle_seqs=bool(shuf))
        steps = g.steps_per_epoch
        E.claim('steps', steps == n * it // b and g.num_total_subseqs == steps * b)
        for ep in range(2 if n == 2 else 1):
            seen = []
            for t in range(steps):
                k, x, y = g.read(squeeze=False)
                E.claim('batch', len(k) == b and len(x) == b)
                for i in range(b):
                    seen.append(str(k[i]))
                    off, m = piece(x[i], k[i], keys)
                    f = L[seen[-1]]
                    E.claim('in the sequence', s_and(off >= 0, off + m <= f))
                    E.claim('longest', m <= (hi if hi is not None else max_of(L)))
                    E.claim('shortest', s_or(m >= (lo if lo is not None else 1), m == f))
                    if lo is None:
                        E.claim('shortest of the list', all(bool(s_or(m >= v, f < v)) for v in [min_of(L)]))
                one_hot(E, 'class', y, [int(C[a][1]) for a in seen[-b:]], len(set(C.values())))
            for p in range(0, len(seen), n):
                E.claim('turns', len(set(seen[p:p + n])) == len(seen[p:p + n]))
            if not shuf:
                E.claim('order', seen == [keys[i % n] for i in range(len(seen))])
            E.claim('epoch', g.cur_epoch == ep + 1)
    E.reach()


def max_of(L):
    v = list(L.values())
    m = v[0]
    for a in v[1:]:
        if bool(a > m):
            m = a
    return m


def min_of(L):
    v = list(L.values())
    m = v[0]
    for a in v[1:]:
        if bool(a < m):
            m = a
    return m


@harness('P33', configs=[dict(n=3, method=m, bal=b, par=p) for m in ('random', 'full_seqs') for b in (0, 1) for p in (0, 1)], patch=patch, bounds='3 sequences of up to 6 frames, two of any of two classes, any minimum length, every shuffle')
def pruned(E, n, method, bal, par):
    """sequences left after pruning, balancing and splitting the list are read with their lengths and classes"""
    cls = ['c1'] + ['c%d' % E.choice('c%d' % i, 2) for i in range(1, n)]
    d, l, keys, L, C = corpus(E, n, cls=cls, hi=6)
    pr = E.int('prune', 1, 4)
    part = E.choice('part', 2) + 1 if par else 1
    mine = keys if not par else keys[:n // 2] if part == 1 else keys[n // 2:]
    if par:
        mine = keys[:1] if part == 1 else keys[1:]
    kept = [k for k in mine if bool(L[k] >= pr)]
    if not kept:
        return
    with E.random_state(Rng(E).make()):
        g = V1(d, l, batch_size=1, iters_per_epoch=1, gen_method=method, min_seq_length=6, max_seq_length=6, prune_min_length=pr, class_weight='balanced' if bal else None, max_class_imbalance=1, part_idx=part, num_parts=2 if par else 1)
        E.reach()
        cs = sorted(set(C[k] for k in kept))
        E.claim('number of classes', g.num_classes == len(cs))
        num = {c: sum(1 for k in kept if C[k] == c) for c in cs}
        want = {c: max(num.values()) if bal else num[c] for c in cs}
        total = sum(want.values())
        E.claim('number of sequences', g.num_seqs == total and g.steps_per_epoch == total)
        got = []
        for t in range(total):
            k, x, y = g.read(squeeze=False)
            off, m = piece(x[0], k[0], keys)
            k = str(k[0])
            got.append(k)
            E.claim('in the sequence', s_and(off >= 0, off + m <= L[k], m >= 1))
            E.claim('whole', m == L[k])
            one_hot(E, 'class', y, [cs.index(C[k])], len(cs))
    E.claim('kept', set(got) == set(kept))
    for c in cs:
        E.claim('balance', sum(1 for k in got if C[k] == c) == want[c])


SEQ = [dict(n=n, lo=lo, hi=hi, over=o, w=w) for n, lo, hi, o in ((2, 2, 2, 0), (2, 2, 4, 0), (2, 2, 4, 1), (1, 3, 5, 2), (2, 3, 4, 1)) for w in ('balanced', 'unbalanced')] + [dict(n=2, lo=2, hi=2, over=0, w='unbalanced', shuf=1)]


@harness('P33', configs=SEQ, patch=patch, bounds='up to 2 sequences of up to 7 frames, every draw of their lengths and shuffle')
def sequential(E, n, lo, hi, over, w, shuf=0):
    """subsequences follow each other with the overlap, from the start of each sequence, in turns"""
    d, l, keys, L, C = corpus(E, n, lo=lo, hi=7 if n == 1 else 6)
    with E.random_state(Rng(E).make()):
        g = V1(d, l, batch_size=1, gen_method='sequential', min_seq_length=lo, max_seq_length=hi, seq_overlap=over, seq_weight=w, shuffle_seqs=bool(shuf))
        E.reach()
        sh = (lo + hi) // 2 - over
        need = {}
        for k in keys:
            m = 1
            while bool(L[k] > m * sh):
                m += 1
            need[k] = m
        top = max(need.values())
        total = n * top if w == 'balanced' else sum(need.values())
        E.claim('steps', g.steps_per_epoch == total)
        at = {k: (0, None, 0) for k in keys}
        cnt = {k: 0 for k in keys}
        for t in range(total):
            k, x = g.read(squeeze=False)[:2]
            k = str(k[0])
            off, m = piece(x[0], k, keys)
            cnt[k] += 1
            i, end, _ = at[k]
            E.claim('in the sequence', s_and(off >= 0, off + m <= L[k]))
            E.claim('longest', m <= hi)
            if i == 0:
                E.claim('starts', off == 0)
            else:
                E.claim('follows', s_or(off == end - over, s_and(off == L[k] - lo, off <= end - over)))
            if i + 1 == need[k]:
                E.claim('last', s_or(m == hi, off + m == L[k]))
                at[k] = (0, None, 0)
            else:
                E.claim('shortest', m >= lo)
                at[k] = (i + 1, off + m, 0)
        E.claim('turns', all(cnt[k] == (top if w == 'balanced' else need[k]) for k in keys))


@harness('P33', configs=[dict(v=v, n=2, e=e, rr=rr) for v in (1, 2) for e in (1, 2) for rr in (0, 1) if not (rr and e == 2)], patch=patch, bounds='2 sequences of up to 12 frames; 3 epochs of a batch; every shuffle and draw')
def resumed(E, v, n, e, rr):
    """the batches of an epoch do not depend on having started before; given a seed"""
    d, l, keys, L, C = corpus(E, n, lo=2)
    kw = dict(batch_size=1 if v == 2 else 2, iters_per_epoch=1 if v == 1 else 0.5, min_seq_length=2, max_seq_length=5, sg_seed=3, reset_rng=bool(rr))
    rng = Rng(E).make()
    G = V1 if v == 1 else V2
    out = []
    with E.random_state(rng):
        g = G(d, l, **kw)
        E.claim('one batch', g.steps_per_epoch == 1)
        for ep in range(e + 1):
            r = g.read(squeeze=False)
        h = G(d, l, init_epoch=e, **kw)
        s = h.read(squeeze=False)
    E.reach()
    E.claim('epochs', g.cur_epoch == e + 1 and h.cur_epoch == e + 1)
    E.claim('keys', list(r[0]) == list(s[0]))
    for i, k in enumerate(r[0]):
        a, b = piece(r[1][i], k, keys), piece(s[1][i], k, keys)
        E.claim('subsequence', s_and(a[0] == b[0], a[1] == b[1]))


@harness('P33', configs=[dict(v=v, n=2) for v in (1, 2)], patch=patch, bounds='an epoch of two batches')
def seeded(E, v, n):
    """each epoch has a seed of its own"""
    d, l, keys, L, C = corpus(E, n, lo=3)
    seeds = []

    class R(Rng):
        def make(self, seed=None):
            seeds.append(seed)
            return Rng.make(self, seed)
    with E.random_state(R(E)):
        g = (V1 if v == 1 else V2)(d, l, batch_size=1, iters_per_epoch=1, min_seq_length=2, max_seq_length=2, sg_seed=10, init_epoch=2)
        for t in range(4):
            g.read(squeeze=False)
        E.claim('seeds', seeds == [12, 13, 14])
        seeds[:] = []
        g = (V1 if v == 1 else V2)(d, l, batch_size=1, iters_per_epoch=1, min_seq_length=2, max_seq_length=2, sg_seed=10, init_epoch=2, reset_rng=True)
        for t in range(2):
            g.read(squeeze=False)
    E.reach()
    E.claim('same seed', seeds == [10, 10])


@harness('P33', configs=[dict(n=3, b=b, pc=pc, pu=pu, cl=cl) for b, pc, pu in ((2, 1, 1), (2, 2, 1), (2, 1, 2), (3, 2, 1)) for cl in (0, 1) if not (b == 3 and cl)] + [dict(n=3, b=2, pc=1, pu=1, cl=cl, par=1) for cl in (0, 1)], patch=patch,
         bounds='3 sequences of up to 12 frames, two of any of two classes (of four in the list), any limits, every draw; the first or second part of the list')
def by_class(E, n, b, pc, pu, cl, par=0):
    """batches with the asked number of sequences of each class and subsequences of each sequence"""
    cls = ['c0'] + ['c%d' % E.choice('c%d' % i, 2) for i in range(1, n)]
    d, l, keys, L, C = corpus(E, n, cls=cls)
    lo = E.int('min', 1, TOP)
    hi = E.int('max', 1, TOP)
    E.assume(lo <= hi)
    fp = None
    names = sorted(set(cls))
    if cl:
        names = ['c1', 'x', 'c0', 'c2']
        fp = E.tmp('classes')
        with open(fp, 'w') as f:
            f.write('c1 1\nx\nc0\nc2 2\n')
    pr = 3 if cl else 0
    part = 1 + E.choice('part', 2) if par else 1
    kept = [k for k in (keys if not par else keys[:1] if part == 1 else keys[1:]) if bool(L[k] >= pr)]
    if not kept:
        return
    if not cl:
        names = sorted(set(C[k] for k in kept))

    rng = Rng(E)
    if cl:
        rng.lot, rng.good = 4, [i for i, c in enumerate(names) if any(C[k] == c for k in kept)]
    with E.random_state(rng.make()):
        g = V2(d, l, class_list=fp, batch_size=b, iters_per_epoch=1, num_egs_per_class=pc, num_egs_per_utt=pu, min_seq_length=lo, max_seq_length=hi, return_utt1hot=True, prune_min_length=pr, part_idx=part, num_parts=1 + par)
        k, x, y, z = g.read(squeeze=False)
    E.reach()
    E.claim('steps', g.steps_per_epoch == -(-len(kept) // b))
    E.claim('batch', len(k) == b and len(x) == b)
    for i in range(b):
        off, m = piece(x[i], k[i], keys)
        f = L[str(k[i])]
        E.claim('in the sequence', s_and(off >= 0, off + m <= f))
        E.claim('length', s_and(m <= hi, s_or(m >= lo, m == f)))
        E.claim('kept', str(k[i]) in kept)
    one_hot(E, 'class', y, [names.index(C[str(a)]) for a in k], len(names))
    for i in range(b):
        if i % (pc * pu):
            E.claim('same class', C[str(k[i])] == C[str(k[i - 1])])
        if i % pu:
            E.claim('same sequence', str(k[i]) == str(k[i - 1]))
    uk = sorted(set(keys.index(str(a)) for a in k))
    one_hot(E, 'sequence', z[:, :len(uk)], [uk.index(keys.index(str(a))) for a in k], len(uk))
    E.claim('columns', z.shape[1] == -(-b // pu) and not np.any(z[:, len(uk):]))


@harness('P33', configs=[dict(v=v, mx=m) for v in (1, 2) for m in (None, 4)], patch=None, bounds='2 sequences of 1 to 3 frames, every draw')
def tensors(E, v, mx):
    """padded batches of a real file"""
    ln = [E.choice('len%d' % i, 3) + 1 for i in range(2)]
    d, l, keys, L, C = corpus(E, 2, lens=ln)
    with E.random_state(Rng(E).make()):
        g = (V1 if v == 1 else V2)(d, l, batch_size=2, iters_per_epoch=1, min_seq_length=1, max_seq_length=3)
        k, x, w, y = g.read(max_seq_length=mx)
    E.reach()
    T = 3 if mx is None else mx
    E.claim('shape', x.shape == (2, T, 2) and w.shape == (2, T))
    for i in range(2):
        m = int(np.sum(w[i]))
        E.claim('weights', 1 <= m <= L[str(k[i])] and [float(a) for a in w[i]] == [1.0] * m + [0.0] * (T - m))
        o = int(x[i, 0, 1])
        E.claim('frames', [[int(a) for a in r] for r in x[i, :m]] == [[keys.index(str(k[i])), o + j] for j in range(m)] and o + m <= L[str(k[i])])
        E.claim('padding', not np.any(x[i, m:]))
