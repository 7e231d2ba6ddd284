"""Copies, merges and conversions of archives, and the legacy readers"""
import os
import numpy as np
from symx.harness import harness, s_and, s_or
from symx.symbytes import Disk, patch_bytes
from symx.fakeh5 import patch_h5
from symx.util import array
from hyperion.io import ark_data_writer as aw, ark_data_reader as ar, h5_data_writer as hw, h5_data_reader as hr
from hyperion.io import kaldi_data_reader as kdr
from hyperion.io.copy_feats import CopyFeats
from hyperion.io.h5_merger import H5Merger
from hyperion.io.hyp_data_reader import HypDataReader
from hyperion.io.hyp_data_writer import HypDataWriter
from hyperion.io.kaldi_data_reader import KaldiDataReader
from hyperion.io.data_rw_factory import DataWriterFactory as DWF, SequentialDataReaderFactory as SDRF, RandomAccessDataReaderFactory as RDRF

TOL = 1e-6


def patch(env):
    p = patch_bytes(env)
    p['extra'] = list(p['extra']) + list(patch_h5(env)['extra'])
    d = Disk()
    p['setattrs'] = [x for x in p['setattrs'] if x[1] != 'INT_OBJ'] + [(aw, 'open', d.open), (ar, 'open', d.open), (kdr, 'open', d.open)]
    return p


def recs_of(E, shapes, keys=None):
    k = keys or ['u%d' % i for i in range(len(shapes))]
    return [(k[i], E.typed(E.real('x%d' % i, s, lo=-5, hi=5), 'float32')) for i, s in enumerate(shapes)]


def same(E, nm, got, want):
    E.claim('shape of ' + nm, got.shape == want.shape)
    E.eq(nm, got, want, TOL)


def put(E, kind, nm, recs):
    """-> archive, script"""
    a, s = E.tmp(nm + '.' + kind), E.tmp(nm + '.scp')
    with (aw.ArkDataWriter if kind == 'ark' else hw.H5DataWriter)(a, s) as w:
        for k, x in recs:
            w.write(k, x)
    return a, s


def spec(kind, form, a, s):
    return {'file': kind + ':' + a, 'bare': a, 'script': 'scp:' + s}[form]


def out_spec(E, kind, nm):
    a, s = E.tmp(nm + '.' + kind), E.tmp(nm + '.scp')
    return '%s,scp:%s,%s' % (kind, a, s), a, s


def check(E, kind, a, s, want):
    """the archive has the records, in order, and the script finds them"""
    with SDRF.create(kind + ':' + a) as r:
        keys, data = r.read()
    w = sorted(want, key=lambda p: p[0]) if kind == 'h5' else want
    E.claim('keys of the archive', list(keys) == [k for k, _ in w] and len(data) == len(w))
    for d, (k, x) in zip(data, w):
        same(E, 'record ' + k, d, x)
    with SDRF.create('scp:' + s) as r:
        keys, data = r.read()
    E.claim('keys of the script', list(keys) == [k for k, _ in want])
    for d, (k, x) in zip(data, want):
        same(E, 'record %s of the script' % k, d, x)


@harness('P14', configs=[dict(i=i, form=f, o=o) for i in ('ark', 'h5') for f in ('file', 'script') for o in ('ark', 'h5')], patch=patch,
         bounds='3 matrices of up to 3 by 2, chunks of up to 4')
def copy(E, i, form, o):
    """copies have every record once, in order"""
    recs = recs_of(E, [(2, 2), (1, 2), (3, 2)], ['a', 'b', 'c'])
    a, s = put(E, i, 'f', recs)
    w, oa, os_ = out_spec(E, o, 'g')
    n = E.choice('chunk', 5)
    CopyFeats(spec(i, form, a, s), w, **(dict(chunk_size=n) if n else {}))
    E.reach()
    check(E, o, oa, os_, recs)


@harness('P14', configs=[dict(i=i, form=f, o=o) for i, f, o in (('ark', 'file', 'h5'), ('ark', 'script', 'ark'), ('h5', 'file', 'ark'), ('h5', 'script', 'h5'))], patch=patch,
         bounds='up to 3 inputs of one or two matrices, chunks of up to 3')
def merge(E, i, form, o):
    """merges have the records of every input, in order"""
    sizes = [1 + E.choice('m%d' % j, 2) for j in range(1 + E.choice('inputs', 3))]
    recs, ins, at = [], [], 0
    for j, m in enumerate(sizes):
        rs = [('k%d' % (at + t), E.typed(E.real('y%d' % (at + t), (1 + t, 2), lo=-5, hi=5), 'float32')) for t in range(m)]
        at += m
        recs += rs
        ins.append(spec(i, form, *put(E, i, 'f%d' % j, rs)))
    w, oa, os_ = out_spec(E, o, 'g')
    CopyFeats(ins if len(ins) > 1 or E.bool('one') else ins[0], w, chunk_size=1 + E.choice('chunk', 3))
    E.reach()
    check(E, o, oa, os_, recs)


@harness('P14', configs=[dict(i=i, form=f, o=o) for i, f, o in (('ark', 'script', 'h5'), ('h5', 'file', 'ark'), ('h5', 'script', 'ark'))], patch=patch,
         bounds='4 matrices, up to 4 parts, chunks of up to 3')
def parts(E, i, form, o):
    """the copies of the parts are the whole"""
    recs = recs_of(E, [(1, 2), (2, 2), (1, 2), (2, 2)], ['a', 'b', 'c', 'd'])
    a, s = put(E, i, 'f', recs)
    n = 1 + E.choice('parts', 4)
    ch = 1 + E.choice('chunk', 3)
    got = 0
    for p in range(n):
        w, oa, os_ = out_spec(E, o, 'g%d' % p)
        CopyFeats(spec(i, form, a, s), w, part_idx=p + 1, num_parts=n, chunk_size=ch)
        with open(os_) as f:
            m = len(f.read().splitlines())
        E.claim('balanced', 4 // n <= m <= -(-4 // n))
        check(E, o, oa, os_, recs[got:got + m])
        got += m
    E.reach()
    E.claim('all the records', got == 4)
    if n > 1:
        w, _, _ = out_spec(E, o, 'h')
        E.claim('parts of several inputs are refused', E.attempt(lambda: CopyFeats([spec(i, form, a, s)] * 2, w, part_idx=1, num_parts=n))[0])


@harness('P14', configs=[dict(o=o) for o in ('ark', 'h5')], patch=patch, bounds='2 matrices of 3 by 2 with any rows of the script, a prefix of the paths and another separator')
def scripts(E, o):
    """the copy of a script has the rows that it tells"""
    recs = recs_of(E, [(3, 2), (3, 2)], ['a', 'b'])
    a, s = put(E, 'ark', 'f', recs)
    sep = (' ', '=')[E.choice('sep', 2)]
    d = os.path.dirname(s) + '/'
    b, m = E.choice('from', 3), E.choice('len', 4)
    E.assume(b + m <= 3)
    with open(s) as f:
        ls = [l.split() for l in f]
    s2 = E.tmp('g.scp')
    with open(s2, 'w') as f:
        for j, (k, v) in enumerate(ls):
            assert v.startswith(d)
            f.write('%s%s%s%s\n' % (k, sep, v[len(d):], '[%d:%s]' % (b, b + m if m else '') if j else ''))
    w, oa, os_ = out_spec(E, o, 'h')
    CopyFeats('scp:' + s2, w, path_prefix=d, scp_sep=sep)
    E.reach()
    want = [recs[0], ('b', recs[1][1][b:b + m] if m else recs[1][1][b:])]
    with RDRF.create('scp:' + os_, scp_sep=sep) as r:
        data = r.read(['b', 'a'])
    same(E, 'rows', data[0], want[1][1])
    same(E, 'whole', data[1], want[0][1])
    with open(os_) as f:
        E.claim('separator of the script', [l.split(sep)[0] for l in f] == ['a', 'b'])


@harness('P14', configs=[dict(m=m) for m in ('auto', '2byte-auto', '1byte-0-1')], patch=patch, bounds='one matrix of 2 by 1 of values between 0 and 1')
def compressed(E, m):
    """compressed copies are near the records"""
    x = E.typed(E.real('x', (2, 1), lo=0, hi=1), 'float32')
    E.assume(x[1, 0] == x[0, 0] * 0 + 1)
    E.assume(x[0, 0] <= 0.5)
    a, s = put(E, 'ark', 'f', [('u', x)])
    w, oa, os_ = out_spec(E, 'ark', 'g')
    CopyFeats('ark:' + a, w, compress=True, compression_method=m)
    with SDRF.create('ark:' + oa) as r:
        keys, data = r.read()
    E.reach()
    E.claim('keys', keys == ['u'] and data[0].shape == (2, 1))
    for j in range(2):
        E.claim('near', s_and(data[0][j, 0] - x[j, 0] < .01, x[j, 0] - data[0][j, 0] < .01))
    with open(oa, 'rb') if not E.symbolic else aw.open(oa, 'rb') as f:
        h = f.read(6)
    E.claim('compressed', bytes(h) == b'u \0BCM' or bytes(h)[:5] == b'u \0BC')


@harness('P14', configs=[dict(form=f) for f in ('all', 'pieces', 'keys')], patch=patch, bounds='3 matrices, in reads of any size')
def kaldi_reader(E, form):
    """the Kaldi reader returns the records of the script"""
    recs = recs_of(E, [(2, 2), (1, 2), (3, 1)], ['b', 'a', 'c'])
    f = [put(E, 'ark', 'f', recs[:2]), put(E, 'ark', 'g', recs[2:])]
    s = E.tmp('all.scp')
    base = os.path.dirname(s)
    rel = E.bool('input_dir')
    with open(s, 'w') as g:
        for _, p in f:
            with open(p) as h:
                g.write(h.read().replace(base + '/', '') if rel else h.read())
    r = KaldiDataReader(s, input_dir=base) if rel else KaldiDataReader(s)
    if form == 'keys':
        ks = [('a', 'b', 'c')[E.choice('k%d' % i, 3)] for i in range(2)]
        x, k = r.read(ks)
        E.reach()
        E.claim('keys', list(k) == ks and len(x) == 2)
        for v, q in zip(x, ks):
            same(E, 'record ' + q, v, dict(recs)[q])
        return
    at = 0
    if form == 'pieces':
        for t in range(2):
            first = E.choice('first%d' % t, 5) - 1
            n = E.choice('n%d' % t, 4)
            kw = {}
            if first >= 0:
                at = first
                kw['first_record'] = first
            x, k = r.read(num_records=n, **kw)
            w = recs[at:at + n]
            at = min(at + n, 3)
            E.claim('keys %d' % t, list(k) == [q for q, _ in w] and len(x) == len(w))
            for v, (q, y) in zip(x, w):
                same(E, 'record %s %d' % (q, t), v, y)
            E.claim('eof %d' % t, r.eof() == (at == 3))
    x, k = r.read()
    E.reach()
    E.claim('the rest', list(k) == [q for q, _ in recs[at:]] and len(x) == 3 - at)
    for v, (q, y) in zip(x, recs[at:]):
        same(E, 'rest ' + q, v, y)
    E.claim('eof', r.eof())
    x, k = r.read()
    E.claim('nothing more', len(x) == 0 and len(k) == 0)
    r.reset()
    E.claim('not at end', not r.eof())
    x, k = r.read(num_records=2, squeeze=True)
    E.claim('again', list(k) == ['b', 'a'])
    same(E, 'squeezed', x[1], recs[1][1][0])


@harness('P14', configs=[dict(chunk=c) for c in (None, 1, 2, 3)], patch=patch, bounds='up to 3 files of none to 3 arrays of one or two dimensions')
def h5_merge(E, chunk):
    """the merged file has the arrays of all the files"""
    ins, recs, at = [], [], 0
    for j in range(1 + E.choice('inputs', 3)):
        p = E.tmp('f%d.h5' % j)
        w = HypDataWriter(p)
        for t in range(E.choice('m%d' % j, 4)):
            k = 'k%d' % at
            x = E.typed(E.real('y%d' % at, (2, 1) if t else (2,), lo=-5, hi=5), 'float64')
            w.write(k, '', x)
            recs.append((k, x))
            at += 1
        w.f.close()
        ins.append(p)
    o = E.tmp('o.h5')
    m = H5Merger(ins, o, chunk)
    m.merge()
    del m
    r = HypDataReader(o)
    E.reach()
    E.claim('names', sorted(r.get_datasets()) == sorted(k for k, _ in recs))
    for (k, x), y in zip(recs, r.read([k for k, _ in recs])):
        same(E, 'array ' + k, y, x)
    r.f.close()


@harness('P14', configs=[dict(field=f) for f in ('', '.s')], patch=patch, bounds='3 matrices of 3 by 2, any keys, rows and random choices')
def hyp_reader(E, field):
    """the legacy reader returns the arrays, their rows, and random rows"""
    recs = recs_of(E, [(3, 2)] * 3, ['b', 'a', 'c'])
    p = E.tmp('f.h5')
    w = HypDataWriter(p)
    if E.bool('one'):
        for k, x in recs:
            w.write(k, field, x)
    else:
        w.write(['b', 'a', 'c'], field, [x for _, x in recs])
    w.f.close()
    by = dict(recs)
    r = HypDataReader(p)
    E.claim('names', sorted(r.get_datasets()) == [k + field for k in ('a', 'b', 'c')])
    ks = [('a', 'b', 'c')[E.choice('k%d' % i, 3)] for i in range(2)]
    for nm, q in (('list', ks), ('array', np.array(ks))):
        x = r.read(q, field)
        E.claim('number', len(x) == 2)
        t = r.read(q, field, return_tensor=True)
        E.claim('shape of tensor', t.shape == (2, 3, 2))
        for v, u, k in zip(x, t, ks):
            same(E, nm, v, by[k])
            same(E, 'tensor of ' + nm, u, by[k])
        E.claim('number of rows', list(r.get_num_rows(q, field)) == [3, 3])
    E.claim('missing arrays are errors', E.attempt(lambda: r.read(['d'], field))[0])
    i, n = E.choice('i', 3), 1 + E.choice('n', 3)
    E.assume(i + n <= 3)
    E.reach()
    k = ks[0]
    same(E, 'slice', r.read_slice(k, i, n, field), by[k][i:i + n])
    rng = E.rng()
    y, at = r.read_random_slice(k, n, rng, field)
    at = int(at)
    E.claim('random slice inside', 0 <= at <= 3 - n)
    same(E, 'random slice', y, by[k][at:at + n])
    y, ix = r.read_random_samples(k, n, E.rng('rng2'), field, replace=False)
    ix = [int(v) for v in ix]
    E.claim('different samples in order', len(ix) == n and ix[0] == 0 and all(a < b for a, b in zip(ix, ix[1:])))
    E.claim('shape of samples', y.shape == (n, 2))
    E.claim('samples', s_or(*[s_and(*[s_and(*[y[j, c] == by[k][f + ix[j], c] for c in range(2)]) for j in range(n)]) for f in range(3) if f + ix[-1] < 3]))
