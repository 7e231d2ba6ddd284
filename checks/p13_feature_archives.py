"""Feature archives: what writers store readers return, in any order, piece and history"""
import contextlib
import numpy as np
from symx.harness import harness, s_and, s_or
from symx.symbytes import Disk, patch_bytes
from symx.fakeh5 import patch_h5
from symx.util import array
from hyperion.io import ark_data_writer as aw, ark_data_reader as ar, h5_data_writer as hw, h5_data_reader as hr
from hyperion.io.data_rw_factory import DataWriterFactory as DWF, SequentialDataReaderFactory as SDRF, RandomAccessDataReaderFactory as RDRF
from hyperion.io.rw_specifiers import WSpecifier, RSpecifier
from hyperion.utils.kaldi_matrix import KaldiMatrix, KaldiCompressedMatrix

TOL = 1e-6


def patch(env):
    p = patch_bytes(env)
    p['extra'] = list(p['extra']) + list(patch_h5(env)['extra'])
    d = Disk()
    p['setattrs'] = list(p['setattrs']) + [(aw, 'open', d.open), (ar, 'open', d.open)]
    return p


def patch_plain(env):
    """without symbolic integers in work arrays"""
    p = patch(env)
    p['setattrs'] = [x for x in p['setattrs'] if x[1] != 'INT_OBJ']
    return p


def recs_of(E, shapes, keys=None):
    k = keys or ['u%d' % i for i in range(len(shapes))]
    return [(k[i], E.typed(E.real('x%d' % i, s, lo=-5, hi=5), 'float32')) for i, s in enumerate(shapes)]


def store(E, kind, nm, recs, **kw):
    """writes the records and returns archive and script"""
    a, s = E.tmp(nm + '.' + kind), E.tmp(nm + '.scp')
    w = (aw.ArkDataWriter if kind == 'ark' else hw.H5DataWriter)(a, s, **kw)
    for k, x in recs:
        w.write(k, x)
    w.close()
    return a, s


def join(E, scripts, nm, ranges=None, prefix=None):
    """one script with the lines of several and ranges of rows"""
    lines = []
    for s in scripts:
        with open(s) as f:
            lines += [l.rstrip('\n') for l in f]
    p = E.tmp(nm)
    with open(p, 'w') as f:
        for i, l in enumerate(lines):
            r = ranges[i] if ranges else None
            if prefix:
                k, v = l.split(' ')
                assert v.startswith(prefix)
                l = k + ' ' + v[len(prefix):]
            f.write(l + ('' if r is None else '[%d:%d]' % (r[0], r[0] + r[1]) if r[1] else '[%d:]' % r[0]) + '\n')
    return p


def rows(x, r0, n, rng=None):
    if rng is not None:
        x = x[rng[0]:rng[0] + rng[1]] if rng[1] else x[rng[0]:]
    return x[r0:r0 + n] if n else x[r0:] if r0 else x


def same(E, nm, got, want):
    E.claim('shape of ' + nm, got.shape == want.shape)
    E.eq(nm, got, want, TOL)


class Affine(object):
    """any transformation of the rows"""
    def __init__(self, a, b):
        self.a, self.b = a, b

    def predict(self, x):
        return x * self.a + self.b


def seq_reader(kind, mode, a, s, **kw):
    if mode == 'file':
        return (ar.SequentialArkFileDataReader if kind == 'ark' else hr.SequentialH5FileDataReader)(a, **kw)
    return (ar.SequentialArkScriptDataReader if kind == 'ark' else hr.SequentialH5ScriptDataReader)(s, **kw)


KM = [dict(kind=k, mode=m) for k in ('ark', 'h5') for m in ('file', 'script')]


@harness('P13', configs=KM, patch=patch, bounds='3 matrices of up to 3 by 2, every value, two reads of every number of records, then another pass')
def sequential(E, kind, mode):
    """records come in order, once, in reads of any size, and again after a reset"""
    recs = recs_of(E, [(2, 2), (1, 2), (3, 2)])
    ta, tb = E.real('ta', lo=-2, hi=2), E.real('tb', lo=-2, hi=2)
    a, s = store(E, kind, 'f', recs)
    r = seq_reader(kind, mode, a, s, transform=Affine(ta, tb) if E.bool('transform') else None)
    at = 0
    for t in range(2):
        n = E.choice('n%d' % t, 5)
        keys, data = r.read(n)
        w = recs[at:] if n == 0 else recs[at:at + n]
        at += len(w)
        E.claim('keys %d' % t, keys == [k for k, _ in w] and len(data) == len(w))
        for d, (k, x) in zip(data, w):
            same(E, 'data of ' + k, d, x if r.transform is None else x * ta + tb)
        if mode == 'script' or kind == 'h5':
            E.claim('eof %d' % t, r.eof() == (at == len(recs)))
        elif n == 0 or at < len(recs):
            E.claim('eof %d' % t, r.eof() == (n == 0))
    keys, data = r.read()
    E.reach()
    E.claim('the rest', keys == [k for k, _ in recs[at:]] and len(data) == len(recs) - at)
    for d, (k, x) in zip(data, recs[at:]):
        same(E, 'rest of ' + k, d, x if r.transform is None else x * ta + tb)
    E.claim('eof at end', r.eof())
    keys, data = r.read(1)
    E.claim('nothing more', keys == [] and data == [])
    r.reset()
    E.claim('not at end', not r.eof())
    n = 0
    for k, d in r:
        E.claim('iterated key', k == recs[n][0])
        same(E, 'iterated', d, recs[n][1] if r.transform is None else recs[n][1] * ta + tb)
        n += 1
    E.claim('iterated all', n == len(recs))
    r.reset()
    ks, sh = r.read_shapes()
    E.claim('shapes', ks == [k for k, _ in recs] and [tuple(v) for v in sh] == [x.shape for _, x in recs])
    r.close()


@harness('P13', configs=[dict(kind=k, mode=m, lists=l) for k in ('ark', 'h5') for m in ('file', 'script') for l in (0, 1)], patch=patch,
         bounds='2 matrices of up to 3 by 2, every range of rows, the same for all or one for each')
def seq_rows(E, kind, mode, lists):
    """ranges of rows, also of ranges of the script"""
    recs = recs_of(E, [(3, 2), (2, 1)] if lists else [(3, 1), (2, 1)])
    a, s = store(E, kind, 'f', recs)
    rng = [None, None]
    if mode == 'script':
        for i, (k, x) in enumerate(recs):
            if i == 0 or lists:
                b = E.choice('from%d' % i, x.shape[0])
                m = E.choice('len%d' % i, x.shape[0] + 1)
                E.assume(b + m <= x.shape[0])
                rng[i] = (b, m)
        s = join(E, [s], 'g.scp', rng)
    avail = [rows(x, 0, 0, rng[i]).shape[0] for i, (k, x) in enumerate(recs)]
    if lists:
        r0 = [E.choice('r%d' % i, n) for i, n in enumerate(avail)]
        n = [E.choice('n%d' % i, m + 1) for i, m in enumerate(avail)]
        E.assume(all(b + m <= v for b, m, v in zip(r0, n, avail)))
        if E.bool('array'):
            r0, n = np.array(r0), np.array(n)
    else:
        r0, n = E.choice('r', min(avail)), E.choice('n', min(avail) + 1)
        E.assume(r0 + n <= min(avail))
    r = seq_reader(kind, mode, a, s)
    keys, data = r.read(2, row_offset=r0, num_rows=n)
    E.reach()
    E.claim('keys', keys == ['u0', 'u1'])
    for i, (k, x) in enumerate(recs):
        same(E, 'rows of ' + k, data[i], rows(x, int(r0[i]) if lists else r0, int(n[i]) if lists else n, rng[i]))
    r.reset()
    if lists:
        keys, sh = r.read_shapes(assert_same_dim=False)
        E.claim('shapes', keys == ['u0', 'u1'] and [tuple(v) for v in sh] == [(avail[0], 2), (avail[1], 1)])
        r.reset()
        bad, _ = E.attempt(lambda: r.read_shapes(), AssertionError)
        E.claim('different dimensions are refused', bad)
    else:
        keys, num = r.read_num_rows()
        E.claim('number of rows', keys == ['u0', 'u1'] and list(num) == avail)
        r.reset()
        keys, dims = r.read_dims(1)
        E.claim('dimension', keys == ['u0'] and list(dims) == [1])
        keys, dims = r.read_dims(3)
        E.claim('dimension of the rest', keys == ['u1'] and list(dims) == [1])
        keys, sh = r.read_shapes()
        E.claim('shapes at end', keys == [] and sh == [])
    r.close()


@harness('P13', configs=KM, patch=patch, bounds='4 matrices of 2 to 4 rows in three reads of any number of records, with a range of rows for each record of each read')
def seq_pieces(E, kind, mode):
    """the ranges of a read are those of its records, in every read"""
    recs = recs_of(E, [(4, 1), (3, 1), (2, 1), (3, 1)])
    a, s = store(E, kind, 'f', recs)
    r = seq_reader(kind, mode, a, s)
    at = 0
    first = E.choice('n0', 3)
    for t, c in enumerate((1 + first, 1 + E.choice('n1', 3 - first), 4)):
        w = recs[at:at + c]
        r0 = [(2 if at + i == 0 else (i + t) % 2) if E.bool('from%d' % (at + i)) else 0 for i in range(len(w))] if t < 2 else [1] * len(w)
        n = [1] * len(w) if t < 2 and E.bool('one%d' % t) else [x.shape[0] - f for (k, x), f in zip(w, r0)]
        keys, data = r.read(len(w), row_offset=r0, num_rows=n) if w else ([], [])
        at += len(w)
        E.claim('keys %d' % t, keys == [k for k, _ in w] and len(data) == len(w))
        for d, (k, x), f, m in zip(data, w, r0, n):
            same(E, 'rows of ' + k, d, x[f:f + m])
    E.reach()
    r.close()


@harness('P13', configs=KM, patch=patch, bounds='3 matrices of up to 3 by 2, the first with any of two numbers of columns; every number of records read; every key at random')
def dimensions(E, kind, mode):
    """rows, columns and shapes of part of the archive, also when they are not all the same"""
    recs = recs_of(E, [(2, 1 + E.choice('cols', 2)), (1, 2), (3, 2)])
    a, s = store(E, kind, 'f', recs)
    equal = recs[0][1].shape[1] == 2
    shapes = [x.shape for _, x in recs]
    what = E.choice('what', 3)
    part = [tuple, lambda v: v[0], lambda v: v[1]][what]
    strict = E.bool('same')
    r = seq_reader(kind, mode, a, s)
    get = (r.read_shapes, r.read_num_rows, r.read_dims)[what]
    n = 1 + E.choice('n', 3)
    bad, o = E.attempt(lambda: get(n, assert_same_dim=strict), AssertionError)
    E.claim('refused', bad == (strict and not equal and n > 1))
    if not bad:
        E.claim('first', list(o[0]) == [k for k, _ in recs[:n]] and [part(v) if what == 0 else v for v in o[1]] == [part(v) for v in shapes[:n]])
        o = get(4 - n, assert_same_dim=strict) if n == 3 or E.bool('more') else get(assert_same_dim=strict)
        E.claim('rest', list(o[0]) == [k for k, _ in recs[n:]] and [part(v) if what == 0 else v for v in o[1]] == [part(v) for v in shapes[n:]])
    r.close()
    r = rand_reader(kind, mode if kind == 'h5' else 'script', a, s)
    get = (r.read_shapes, r.read_num_rows, r.read_dims)[what]
    ks = [('u0', 'u1', 'u2')[E.choice('k%d' % i, 3)] for i in range(2)]
    bad, o = E.attempt(lambda: get(ks, assert_same_dim=strict), AssertionError)
    E.reach()
    by = dict(recs)
    w = [by[k].shape for k in ks]
    E.claim('refused at random', bad == (strict and w[0][1] != w[1][1]))
    if not bad:
        E.claim('at random', [part(v) if what == 0 else v for v in o] == [part(v) for v in w])
    r.close()


@harness('P13', configs=[dict(kind=k, mode=m) for k, m in (('ark', 'script'), ('h5', 'script'))], patch=patch, bounds='one matrix of 4 rows; every range of the script and of the reader that is too long')
def beyond(E, kind, mode):
    """rows outside of the range of the script are refused"""
    recs = recs_of(E, [(4, 1)])
    a, s = store(E, kind, 'f', recs)
    b, m = E.choice('from', 3), 1 + E.choice('len', 3)
    E.assume(b + m <= 4)
    s = join(E, [s], 'g.scp', [(b, m)])
    r0, n = E.choice('r', 4), 1 + E.choice('n', 4)
    E.assume(r0 + n > m)
    r = seq_reader(kind, mode, a, s)
    bad, _ = E.attempt(lambda: r.read(1, row_offset=r0, num_rows=n), AssertionError)
    E.reach()
    E.claim('refused in sequence', bad)
    r = rand_reader(kind, 'script', a, s)
    bad, _ = E.attempt(lambda: r.read('u0', row_offset=r0, num_rows=n), AssertionError)
    E.claim('refused at random', bad)


def rand_reader(kind, mode, a, s, **kw):
    if kind == 'ark':
        return ar.RandomAccessArkDataReader(s, **kw)
    return (hr.RandomAccessH5FileDataReader if mode == 'file' else hr.RandomAccessH5ScriptDataReader)(a if mode == 'file' else s, **kw)


RM = [('ark', 'script'), ('h5', 'script'), ('h5', 'file')]


@harness('P13', configs=[dict(kind=k, mode=m, two=t) for k, m in RM for t in (0, 1) if not (t and m == 'file')], patch=patch,
         bounds='3 matrices of up to 3 by 2 in one or two archives, every pair of keys twice, present or not, read one after another')
def random(E, kind, mode, two):
    """any keys, any times, in any order, from any archive"""
    recs = recs_of(E, [(2, 2), (1, 2), (3, 2)], ['b', 'a', 'c'])
    if two:
        f = [store(E, kind, 'z', recs[:2]), store(E, kind, 'f', recs[2:])]
        a, s = None, join(E, [f[1][1], f[0][1]] if E.bool('swap') else [f[0][1], f[1][1]], 'all.scp')
    else:
        a, s = store(E, kind, 'f', recs)
    by = dict(recs)
    perm = E.bool('permissive')
    r = rand_reader(kind, mode, a, s, permissive=perm)
    for t in range(2):
        ks = [('a', 'b', 'c', 'd')[E.choice('k%d%d' % (t, i), 4)] for i in range(2 - t)]
        if t:
            ks = ks[0] if E.bool('string') else ks
        lost = 'd' in ks
        bad, data = E.attempt(lambda: r.read(ks))
        E.claim('missing keys are errors', bad == (lost and not perm))
        if not bad:
            E.claim('number of matrices', len(data) == len(ks))
            for k, d in zip(ks, data):
                if k in by:
                    same(E, 'data of ' + k, d, by[k])
                else:
                    E.claim('missing is empty', d.shape == (0,))
        bad, sh = E.attempt(lambda: r.read_shapes(ks, assert_same_dim=False))
        E.claim('shapes of missing keys', bad == (lost and not perm))
        if not bad:
            E.claim('shapes', [tuple(v) for v in sh] == [by[k].shape if k in by else (0,) for k in ks])
    E.reach()
    E.claim('rows and columns', list(r.read_num_rows(['c', 'b'])) == [3, 2] and list(r.read_dims(['a', 'c'])) == [2, 2])
    r.close()


@harness('P13', configs=[dict(kind=k, mode=m) for k, m in RM], patch=patch, bounds='2 matrices of up to 3 by 2, every range of rows of ranges of the script')
def random_rows(E, kind, mode):
    recs = recs_of(E, [(3, 2), (2, 2)])
    rng = [None, None]
    a, s = store(E, kind, 'f', recs)
    if mode == 'script':
        b = E.choice('from', 3)
        m = E.choice('len', 4)
        E.assume(b + m <= 3)
        rng[0] = (b, m)
        s = join(E, [s], 'g.scp', rng)
    avail = [rows(x, 0, 0, rng[i]).shape[0] for i, (k, x) in enumerate(recs)]
    r = rand_reader(kind, mode, a, s)
    r0 = [E.choice('r%d' % i, n) for i, n in enumerate(avail)]
    n = [E.choice('n%d' % i, m + 1) for i, m in enumerate(avail)]
    E.assume(all(b + m <= v for b, m, v in zip(r0, n, avail)))
    if E.bool('array'):
        data = r.read(['u1', 'u0'], row_offset=np.array(r0[::-1]), num_rows=np.array(n[::-1]))
    else:
        data = r.read(['u1', 'u0'], row_offset=r0[::-1], num_rows=n[::-1])
    E.reach()
    for i in (0, 1):
        same(E, 'rows of u%d' % i, data[1 - i], rows(recs[i][1], r0[i], n[i], rng[i]))
    E.claim('shapes', [tuple(v) for v in r.read_shapes(['u0', 'u1'])] == [(avail[0], 2), (avail[1], 2)])
    E.claim('number of rows', list(r.read_num_rows(['u0', 'u1'])) == avail)
    q = r.read(['u0', 'u1', 'u0'], squeeze=True, num_rows=1)
    E.claim('squeezed', q.shape == (3, 1, 2))
    for j, i in enumerate((0, 1, 0)):
        same(E, 'squeezed %d' % j, q[j], rows(recs[i][1], 0, 1, rng[i]))
    ta, tb = E.real('ta', lo=-2, hi=2), E.real('tb', lo=-2, hi=2)
    r = rand_reader(kind, mode, a, s, transform=Affine(ta, tb))
    same(E, 'transformed', r.read('u1')[0], recs[1][1] * ta + tb)


@harness('P13', configs=[dict(kind=k, mode=m, vec=v) for k, m in RM for v in (0, 1)], patch=patch, bounds='3 keys of which any is missing; matrices of 2 by 2 and vectors of 2')
def squeeze(E, kind, mode, vec):
    """missing matrices are zeros of the permissive readers"""
    recs = recs_of(E, [(2,)] * 2 if vec else [(2, 2)] * 2)
    by = dict(recs)
    a, s = store(E, kind, 'f', recs)
    r = rand_reader(kind, mode, a, s, permissive=True)
    ks = [('u0', 'u1', 'lost')[E.choice('k%d' % i, 3)] for i in range(3)]
    E.assume(ks != ['lost'] * 3)
    q = r.read(ks, squeeze=True)
    E.reach()
    E.claim('shape', q.shape == ((3, 2) if vec else (3, 2, 2)))
    for j, k in enumerate(ks):
        same(E, 'squeezed %d' % j, q[j], by[k] if k in by else np.zeros(q.shape[1:]))
    E.claim('columns of the random reader', list(r.read_dims(['u1', 'u0'])) == [2, 2])
    E.claim('rows of the random reader', list(r.read_num_rows(['u1', 'u0'])) == ([1, 1] if vec else [2, 2]))
    if mode == 'script':
        for m in ('file', 'script'):
            with seq_reader(kind, m, a, s) as r:
                k, n = r.read_dims(assert_same_dim=True)
                E.claim('columns', list(k) == ['u0', 'u1'] and list(n) == [2, 2])
                r.reset()
                k, n = r.read_num_rows(assert_same_dim=False)
                E.claim('rows', list(k) == ['u0', 'u1'] and list(n) == ([1, 1] if vec else [2, 2]))


@harness('P13', configs=KM[1:], patch=patch_plain, bounds='4 vectors or matrices, any number of parts up to 4; of scripts also grouped by key')
def parts(E, kind, mode):
    """the parts of a list are the list"""
    recs = recs_of(E, [(1, 2)] * 4, ['a', 'b', 'c', 'd'])
    f = [store(E, kind, 'f', recs[:2]), store(E, kind, 'g', recs[2:])] if mode == 'script' else [store(E, kind, 'f', recs)]
    s = join(E, [x[1] for x in f], 'all.scp')
    n = 1 + E.choice('n', 4)
    by = E.bool('by_key')
    got = []
    for i in range(n):
        r = seq_reader(kind, mode, f[0][0], s, part_idx=i + 1, num_parts=n, split_by_key=by)
        keys, data = r.read()
        E.claim('eof', r.eof())
        E.claim('balanced', 4 // n <= len(keys) <= -(-4 // n))
        got += list(zip(keys, data))
        r.close()
    E.reach()
    E.claim('keys', [k for k, _ in got] == ['a', 'b', 'c', 'd'])
    for (k, d), (_, x) in zip(got, recs):
        same(E, 'data of ' + k, d, x)


@harness('P13', configs=[dict(kind=k, mode=m, form=f) for k in ('ark', 'h5') for m in ('file', 'script', 'random') for f in ('list', '3d', 'vectors', 'flush')], patch=patch,
         bounds='2 matrices of up to 2 by 2 or vectors')
def forms(E, kind, mode, form):
    """lists, arrays of matrices and vectors are written alike"""
    x = E.typed(E.real('x', (2, 2) if form == 'vectors' else (2, 2, 2), lo=-5, hi=5), 'float64')
    a, s = E.tmp('f.' + kind), E.tmp('f.scp')
    with (aw.ArkDataWriter if kind == 'ark' else hw.H5DataWriter)(a, s, flush=form == 'flush') as w:
        if form == 'list':
            w.write(['k1', 'k2'], [x[0], x[1]])
        else:
            w.write(['k1', 'k2'], x)
        bad, _ = E.attempt(lambda: w.write('k 3', x[0]), AssertionError)
        E.claim('keys with spaces are refused', bad)
    with open(s) as f:
        E.claim('script', [l.split(' ')[0] for l in f] == ['k1', 'k2'])
    if mode == 'random':
        with rand_reader(kind, 'script', a, s) as r:
            data = r.read(['k1', 'k2'])
            q = r.read(['k1', 'k2'], squeeze=True)
    else:
        with seq_reader(kind, mode, a, s) as r:
            keys, data = r.read()
            r.reset()
            _, q = r.read(squeeze=True)
        E.claim('keys', keys == ['k1', 'k2'])
    E.reach()
    for i in (0, 1):
        same(E, 'data %d' % i, data[i], x[i])
    same(E, 'squeezed', q, x)


@harness('P13', configs=[dict(kind=k, mode=m, method=c) for k in ('ark', 'h5') for m in ('file', 'script', 'random') for c in ('auto', '1byte-auto', '2byte-signed-integer')], patch=patch,
         bounds='2 matrices of 2 by 1 spanning 1, every range of rows')
def compressed(E, kind, mode, method):
    """compressed archives hold the compressed matrices"""
    m = E.real('m', 2, lo=-5, hi=5)
    t = E.real('t', 2, lo=0.25, hi=0.75)
    x = [E.typed(array(E, [[m[i]], [m[i] + 1], [m[i] + t[i]]] if i else [[m[i] + 1], [m[i]]]), 'float32') for i in (0, 1)]
    a, s = store(E, kind, 'f', [('u0', x[0]), ('u1', x[1])], compress=True, compression_method=method)
    z = [KaldiCompressedMatrix.compress(v, method).to_ndarray() for v in x]
    r0, n = E.choice('r', 2), E.choice('n', 3)
    E.assume(r0 + n <= 2)
    if mode == 'random':
        r = rand_reader(kind, 'script', a, s)
        data = r.read(['u0', 'u1'], row_offset=r0, num_rows=n)
        sh = r.read_shapes(['u0', 'u1'])
    else:
        r = seq_reader(kind, mode, a, s)
        keys, data = r.read(0, row_offset=r0, num_rows=n)
        r.reset()
        keys, sh = r.read_shapes()
        E.claim('keys', keys == ['u0', 'u1'])
    E.reach()
    E.claim('shapes', [tuple(v) for v in sh] == [v.shape for v in x])
    for i in (0, 1):
        same(E, 'data %d' % i, data[i], rows(z[i], r0, n))


@harness('P13', configs=[dict(form=f) for f in ('matrix', 'compressed', 'both')], patch=patch, bounds='one matrix of 2 by 2')
def kaldi_forms(E, form):
    """Kaldi matrices are written as they are, or compressed or restored as the writer says"""
    x = E.typed(E.real('x', (2, 1), lo=-5, hi=5), 'float32')
    E.assume(x[1, 0] == x[0, 0] + 1)
    c = KaldiCompressedMatrix.compress(x, '2byte-auto')
    a, s = store(E, 'ark', 'f', [('u', KaldiMatrix(x) if form == 'matrix' else c)], compress=form == 'both')
    y = ar.SequentialArkFileDataReader(a).read()[1][0]
    E.reach()
    same(E, 'data', y, x if form == 'matrix' else c.to_ndarray())
    with open(a, 'rb') if not E.symbolic else ar.open(a, 'rb') as f:
        h = bytes(f.read(6))
    E.claim('stored form', (h[:5] == b'u \0BC') == (form == 'both'))


@harness('P13', configs=[dict(kind=k) for k in ('ark', 'h5')], patch=patch, bounds='2 matrices in two archives')
def prefixes(E, kind):
    """a prefix of the paths and another separator"""
    recs = recs_of(E, [(1, 2), (2, 2)])
    f = [store(E, kind, 'f%d' % i, [recs[i]]) for i in (0, 1)]
    d = f[0][0][:-len('f0.' + kind)]
    s = join(E, [x[1] for x in f], 'all.scp', prefix=d)
    with open(s) as g:
        txt = g.read().replace(' ', '=')
    with open(s, 'w') as g:
        g.write(txt)
    r = seq_reader(kind, 'script', None, s, path_prefix=d, scp_sep='=')
    keys, data = r.read()
    E.claim('keys', keys == ['u0', 'u1'])
    q = rand_reader(kind, 'script', None, s, path_prefix=d, scp_sep='=').read(['u1', 'u0'])
    E.reach()
    for i in (0, 1):
        same(E, 'data', data[i], recs[i][1])
        same(E, 'random data', q[1 - i], recs[i][1])


@harness('P13', configs=[dict(t=t) for t in (0, 1)], patch=patch, bounds='two Kaldi files of one matrix without keys')
def no_offsets(E, t):
    """scripts whose files hold one matrix"""
    recs = recs_of(E, [(1, 2), (2, 2)])
    p = []
    for k, x in recs:
        p.append(E.tmp(k + '.ark'))
        f = aw.open(p[-1], 'wb') if E.symbolic else open(p[-1], 'wb')
        aw.init_kaldi_output_stream(f, True)
        KaldiMatrix(x).write(f, True)
        f.close()
    s = E.tmp('f.scp')
    with open(s, 'w') as f:
        f.write('u0 %s\nv0 %s\nu1 %s\n' % (p[0], p[0], p[1]))
    if t:
        r = ar.SequentialArkScriptDataReader(s)
        keys, data = r.read()
        E.claim('keys', keys == ['u0', 'v0', 'u1'])
    else:
        r = ar.RandomAccessArkDataReader(s)
        data = r.read(['u0', 'v0', 'u1'])
        E.claim('shapes', r.read_shapes(['u1', 'u0']) == [(2, 2), (1, 2)])
    E.reach()
    for d, i in zip(data, (0, 0, 1)):
        same(E, 'data', d, recs[i][1])


@harness('P13', configs=[dict(mode=m) for m in ('file', 'script', 'random')], bounds='2 matrices of up to 2 by 2 with values of 0, -1.5 or 123.25')
def text(E, mode):
    """text archives (the interpreter formats the numbers)"""
    v = [E.choice('v%d' % i, 3) for i in range(3)]
    val = [(0.0, -1.5, 123.25)[k] for k in v]
    recs = [('u0', np.array([[val[0], val[1]]])), ('u1', np.array([[val[2], 1.0], [val[0], val[0]]]))]
    a, s = E.tmp('f.ark'), E.tmp('f.scp')
    w = aw.ArkDataWriter(a, s, binary=False)
    for k, x in recs:
        w.write(k, x)
    w.close()
    if mode == 'random':
        data = ar.RandomAccessArkDataReader(s).read(['u1', 'u0'])[::-1]
    else:
        r = seq_reader('ark', mode, a, s)
        keys, sh = r.read_shapes()
        E.claim('shapes', keys == ['u0', 'u1'] and [tuple(z) for z in sh] == [(1, 2), (2, 2)])
        r.reset()
        keys, data = r.read()
        E.claim('keys', keys == ['u0', 'u1'])
    E.reach()
    for d, (k, x) in zip(data, recs):
        same(E, 'data of ' + k, d, x)


PRIM = (['ark'], ['h5'], ['ark', 'scp'], ['h5', 'scp'], ['scp', 'ark'])


@harness('P13', configs=[dict(p=p) for p in range(len(PRIM))], patch=patch, bounds='every kind of specifier with any options before or after')
def write_specifiers(E, p):
    """a writer is what its specifier says"""
    x = E.real('x', lo=-2, hi=2)
    prim = list(PRIM[p])
    t = E.choice('text', 3) if 'ark' in prim else 0
    f = E.choice('flush', 3)
    opts = [('b', 't')[t - 1]] * bool(t) + [('f', 'nf')[f - 1]] * bool(f)
    k = E.choice('at', len(prim) + 1)
    o = prim[:k] + opts + prim[k:]
    kind = 'ark' if 'ark' in prim else 'h5'
    path = {'ark': E.tmp('f.' + kind), 'h5': E.tmp('f.' + kind), 'scp': E.tmp('f.scp')}
    spec = ','.join(o) + ':' + ','.join(path[q] for q in prim)
    c = E.bool('compress')
    w = DWF.create(spec, compress=c, compression_method='2byte-auto', scp_sep='=')
    E.claim('kind', isinstance(w, aw.ArkDataWriter if kind == 'ark' else hw.H5DataWriter))
    if kind == 'ark':
        E.claim('binary', w.binary == (t != 2))
    E.claim('options', w._flush == (f == 1) and w.compress == c and w.compression_method == '2byte-auto' and w.archive_path == path[kind] and w.scp_sep == '=')
    if t != 2:
        w.write('u', E.typed(array(E, [[x, x + 1]]), 'float32'))
    w.close()
    E.reach()
    if 'scp' in prim and t != 2:
        with open(path['scp']) as g:
            E.claim('script', g.read().startswith('u=' + path[kind] + (':' if kind == 'ark' else '\n')))
    if t != 2:
        r = SDRF.create(kind + ':' + path[kind])
        keys, data = r.read()
        E.claim('key', keys == ['u'])
        E.eq('data', data[0], array(E, [[x, x + 1]]), 1e-4)


@harness('P13', configs=[dict(kind=k, script=s) for k in ('ark', 'h5') for s in (0, 1)], patch=patch, bounds='every kind of specifier with any two options before or after; scripts with offsets and ranges')
def read_specifiers(E, kind, script):
    """a reader is what its specifier says"""
    recs = recs_of(E, [(2, 1), (2, 1)])
    a, s = store(E, kind, 'f', recs)
    sep = '=' if script and E.bool('sep') else ' '
    rng = bool(script) and E.bool('range')
    if script:
        s = join(E, [s], 'g.scp', [(1, 1), (0, 1)] if rng else None)
        with open(s) as f:
            t = f.read().replace(' ', sep)
        with open(s, 'w') as f:
            f.write(t)
    names = ('', 'p', 'o', 's', 'cs', 'bg', 'b', 't', 'np', 'ns')
    o = [names[E.choice('o%d' % i, len(names))] for i in (0, 1)]
    opts = [v for v in o if v]
    first = E.bool('first')
    prim = ['scp' if script else kind]
    spec = ','.join(opts + prim if first else prim + opts) + ':' + (s if script else a)
    r = SDRF.create(spec, scp_sep=sep)
    E.claim('sequential', type(r) is type(seq_reader(kind, 'script' if script else 'file', a, s, **(dict(scp_sep=sep) if script else {}))))
    keys, data = r.read()
    E.claim('keys', keys == ['u0', 'u1'])
    for i in (0, 1):
        same(E, 'data', data[i], rows(recs[i][1], 0, 0, ((1, 1), (0, 1))[i] if rng else None))
    if kind == 'ark' and not script:
        bad, _ = E.attempt(lambda: RDRF.create(spec), ValueError)
        E.claim('archives need a script', bad)
    else:
        q = RDRF.create(spec, scp_sep=sep)
        E.claim('permissive', q.permissive == ('p' in opts))
        same(E, 'random data', q.read('u1')[0], rows(recs[1][1], 0, 0, (0, 1) if rng else None))
    E.reach()


@harness('P13', configs=[dict(p=p) for p in (None, 'in')], bounds='every subset of the options given')
def factory_args(E, p):
    """options of the command line, with a prefix or not, are the arguments of the factories"""
    import argparse
    d, u = ('--' + p + '-', p + '_') if p else ('--', '')
    for fac, args, val in ((DWF, ['scp-sep', 'compress', 'compression-method'], ['=', None, '2byte-auto']),
                           (SDRF, ['scp-sep', 'path-prefix', 'part-idx', 'num-parts'], ['=', '/x', '2', '3']),
                           (RDRF, ['scp-sep', 'path-prefix'], ['=', '/x'])):
        par = argparse.ArgumentParser()
        fac.add_argparse_args(par, p)
        on = [E.bool('%s %s' % (fac.__name__, x)) for x in args]
        line = []
        for x, v, b in zip(args, val, on):
            if b:
                line += [d + x] + ([v] if v is not None else [])
        kw = fac.filter_args(prefix=p, **vars(par.parse_args(line)))
        dflt = {'scp-sep': ' ', 'compress': False, 'compression-method': 'auto', 'path-prefix': None, 'part-idx': 1, 'num-parts': 1}
        want = {}
        for x, v, b in zip(args, val, on):
            want[x.replace('-', '_')] = (True if v is None else int(v) if v.isdigit() else v) if b else dflt[x]
        E.claim('arguments of ' + fac.__name__, kw == want)
    E.reach()
