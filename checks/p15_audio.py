"""Waveforms: what is written is read back, whole, in segments, in pieces and in parts"""
import io
import os
import numpy as np
import soundfile
from symx.harness import harness, s_and, s_or
from symx.symnp import SymArray
from symx.util import array
from symx import core
from hyperion.io import audio_reader as ar, audio_writer as aw
from hyperion.io import AudioWriter, SequentialAudioReader as SAR, RandomAccessAudioReader as RAR
from hyperion.utils import SCPList, SegmentList

FULL = dict(int16=15, int32=31)
BITS = dict(PCM_16=15, PCM_24=23, PCM_32=31)


class FakeSF(object):
    """soundfile over a table of written waveforms; the real files hold the place in the table"""
    SoundFile = None

    def __init__(self):
        self.files = []

    default_subtype = staticmethod(soundfile.default_subtype)
    check_format = staticmethod(soundfile.check_format)
    available_formats = staticmethod(soundfile.available_formats)
    available_subtypes = staticmethod(soundfile.available_subtypes)

    def write(self, file, data, samplerate, subtype=None, endian=None, format=None, closefd=True):
        d = np.dtype(data.dtype)
        if d == object:
            raise core.Unsupported('type of the waveform')
        if d.name not in ('float64', 'float32', 'int32', 'int16'):
            raise TypeError('dtype must be one of float32, float64, int16, int32 and not %s' % d.name)
        if subtype is None:
            subtype = soundfile.default_subtype(os.path.splitext(file)[1][1:])
        x = np.asarray(data).astype(object)
        if subtype in BITS:
            b = BITS[subtype]
            if d.kind == 'f':
                raise core.Unsupported('floats in PCM file')
            f = FULL[d.name]
            if f > b:
                x = np.array([core.s_floor(core.lift(v) * (1.0 / 2 ** (f - b))) for v in x.reshape(-1)], dtype=object).reshape(x.shape)
                f = b
            x = x * (1.0 / 2 ** f)
        elif d.kind != 'f':
            raise core.Unsupported('integers in float file')
        self.files.append((x, samplerate))
        with open(file, 'wb') as fd:
            fd.write(b'SF%d' % (len(self.files) - 1))

    def read(self, file, frames=-1, start=0, stop=None, dtype='float64', always_2d=False, fill_value=None, out=None, samplerate=None, channels=None,
             format=None, subtype=None, endian=None, closefd=True):
        if isinstance(file, str):
            with open(file, 'rb') as fd:
                b = fd.read()
        else:
            b = file.read()
        if not b.startswith(b'SF'):
            raise RuntimeError('format not recognised')
        x, fs = self.files[int(b[2:])]
        if start or stop is not None or frames != -1:
            n = x.shape[0]
            start = min(start + n if start < 0 else start, n)
            stop = n if stop is None else min(stop + n if stop < 0 else stop, n)
            if frames >= 0:
                stop = min(stop, start + frames)
            x = x[start:max(stop, start)]
        r = x.copy().view(SymArray)
        r._dt = np.dtype(dtype)
        return r, fs


def patch(env):
    sf = FakeSF()
    return dict(setattrs=[(ar, 'sf', sf), (aw, 'sf', sf)])


def waves(E, shapes, lim=2 ** 15, dtype='float64'):
    return [E.typed(E.int('x%d' % i, lo=-lim, hi=lim - 1, shape=(n,)), dtype) for i, n in enumerate(shapes)]


KINDS = [dict(fmt=f, sub=s, form=m) for f, s in (('wav', 'PCM_16'), ('flac', None), ('wav', 'PCM_24'), ('wav', 'PCM_32'), ('wav', 'FLOAT'), ('wav', 'DOUBLE'))
         for m in ('one', 'list', 'array')]


@harness('P15', configs=KINDS, patch=patch, bounds='two waveforms of 3 and 2 samples of every integer value of the sample format, any scale of the reader; names with slashes')
def round_trip(E, fmt, sub, form):
    """waveforms written are read back, scaled, with their names and frequencies"""
    bits = BITS.get(sub or 'PCM_16', 15)
    cont = {'PCM_24': 31, 'PCM_32': 31}.get(sub, 15)
    if sub in ('FLOAT', 'DOUBLE'):
        cont = 0
    x = waves(E, [3, 2], 2 ** (cont or 15))
    keys = ['b/1', 'a']
    d, scp = E.tmp('wav'), E.tmp('wav.scp')
    fs = [8000, 16000] if form == 'list' else np.array([8000, 16000]) if form == 'array' else 8000
    want_fs = [8000, 8000] if form == 'one' else [8000, 16000]
    with AudioWriter(d, scp, audio_format=fmt, subtype=sub) as w:
        if form == 'one':
            for k, v in zip(keys, x):
                w.write(k, v, fs)
        else:
            w.write(keys, x, fs)
    sc = E.choice('scale', 3)
    scale = (2 ** 15, 1, 2 ** 31)[sc]
    kw = {} if sc == 0 else dict(wav_scale=scale)
    with SAR(scp, **kw) as r:
        k, got, f = r.read()
        E.claim('end', r.eof())
    E.claim('names', list(k) == keys and len(got) == 2)
    E.claim('frequencies', [int(v) for v in f] == want_fs)
    r = RAR(SCPList.load(scp) if E.bool('list') else scp, **kw)
    ks = ['a', 'b/1', 'a']
    rgot, rf = r.read(ks)
    E.claim('frequencies by name', [int(v) for v in rf] == [want_fs[1], want_fs[0], want_fs[1]])
    one, f1 = r.read('a')
    E.claim('one name', len(one) == 1 and int(f1[0]) == want_fs[1])
    bad, _ = E.attempt(lambda: r.read(['a', 'c']))
    E.claim('unknown name is an error', bad)
    E.reach()
    for nm, a, v in (('0', got[0], x[0]), ('1', got[1], x[1]), ('by name a', rgot[0], x[1]), ('by name b', rgot[1], x[0]), ('by name again', rgot[2], x[1]), ('one', one[0], x[1])):
        E.claim('length ' + nm, a.shape == v.shape)
        if cont > bits:
            for i in range(v.shape[0]):
                y = a[i] * (2.0 ** bits / scale) * 2 ** (cont - bits)
                E.claim('samples %s %d' % (nm, i), s_and(y <= v[i], v[i] - y < 2 ** (cont - bits)))
        else:
            E.eq('samples ' + nm, a * (2.0 ** cont / scale), v, 1e-9)



def files(E, shapes, fs=4, pipe=False, names=None):
    x = waves(E, shapes)
    keys = names or ['r%d' % i for i in range(len(shapes))]
    d, scp = E.tmp('wav'), E.tmp('wav.scp')
    with AudioWriter(d, scp, audio_format='wav', subtype='PCM_16') as w:
        w.write(keys, x, fs)
    if pipe:
        with open(scp) as f:
            lines = [l.split() for l in f]
        with open(scp, 'w') as f:
            for k, p in lines:
                f.write('%s cat %s |\n' % (k, p))
    return keys, x, scp


@harness('P15', configs=[dict(pipe=p) for p in (0, 1)], patch=patch, bounds='3 recordings, two reads of every number of them, the rest, and another pass by iteration')
def pieces(E, pipe):
    """recordings come in order, once, in reads of any size"""
    keys, x, scp = files(E, [2, 1, 3], pipe=pipe)
    r = SAR(scp)
    at = 0
    ns = [E.choice('n0', 4), E.choice('n1', 3)] + [0, 1]
    if pipe:
        E.assume(ns[0] != 0 and ns[1] != 0)
    for t, n in enumerate(ns):
        E.claim('eof %d' % t, r.eof() == (at == 3))
        k, d, f = r.read(n) if n else r.read()
        w = list(zip(keys, x))[at:at + n] if n else list(zip(keys, x))[at:]
        at += len(w)
        E.claim('names %d' % t, list(k) == [a for a, _ in w] and len(d) == len(w) and list(f) == [4] * len(w))
        for a, (_, b) in zip(d, w):
            E.eq('samples %d' % t, a, b)
    E.reach()
    E.claim('end', r.eof())
    r.reset()
    E.claim('not at end', not r.eof())
    n = 0
    for k, d, f in r:
        E.claim('iterated name', k == keys[n] and f == 4)
        E.eq('iterated', d, x[n])
        n += 1
    E.claim('iterated all', n == 3)


@harness('P15', configs=[dict(n=n, segs=s) for n in (3, 4) for s in (0, 1)], patch=patch, bounds='3 or 4 recordings or segments, any number of parts up to 4')
def parts(E, n, segs):
    """the parts of the list are the list"""
    keys, x, scp = files(E, [2] * (2 if segs else n))
    if segs:
        sf = E.tmp('segments')
        with open(sf, 'w') as f:
            for i in range(n):
                f.write('s%d r%d %.2f %.2f\n' % (i, i % 2, .25 * (i // 2), .25 * (i // 2) + .25))
        want = [('s%d' % i, x[i % 2][i // 2:i // 2 + 1]) for i in range(n)]
    else:
        want = list(zip(keys, x))
    p = 1 + E.choice('parts', n)
    got = []
    for i in range(p):
        r = SAR(scp, sf if segs else None, part_idx=i + 1, num_parts=p)
        k, d, f = r.read()
        E.claim('end', r.eof())
        E.claim('balanced', n // p <= len(k) <= -(-n // p))
        got += list(zip(k, d))
    E.reach()
    E.claim('names', [k for k, _ in got] == [k for k, _ in want])
    for (k, a), (_, b) in zip(got, want):
        E.claim('length', a.shape == b.shape)
        E.eq('samples of ' + k, a, b)


def cut(E, t, fs, n):
    """sample in which t falls, up to n"""
    if not E.symbolic:
        return min(int(t * fs), n)
    i = 0
    while i < n and bool(t * fs >= i + 1):
        i += 1
    return i


@harness('P15', configs=[dict(fs=f, by_file=o) for f in (4, 10) for o in (0, 1)], patch=patch, text=True,
         bounds='two recordings of 4 and 3 samples, one segment of each with any start and duration, by order and by name',
         assumptions=['times are not negative'])
def segments(E, fs, by_file):
    """segments are the samples between their times"""
    keys, x, scp = files(E, [4, 3], fs)
    b = E.real('b', 2, lo=0, hi=2)
    w = E.real('w', 2, lo=0, hi=2)
    e = b + w
    order = E.choice('order', 2)
    fid = ['r1', 'r0'] if order else ['r0', 'r1']
    xs = [x[1], x[0]] if order else x
    src = sl = SegmentList.create(['s0', 's1'], fid, list(b), list(e), index_by_file=bool(by_file))
    want, late = [], []
    for i in range(2):
        n = xs[i].shape[0]
        s0, s1 = cut(E, b[i], fs, n), cut(E, e[i], fs, n)
        late.append(s0 >= n)
        want.append(xs[i][s0:s1])
    E.reach()
    r = SAR(scp, src)
    for i in range(2):
        bad, v = E.attempt(lambda: r.read(1), Exception)
        E.claim('segments after the end are refused', bad == late[i])
        if bad:
            E.claim('kind of error', not isinstance(v, (NameError, TypeError, AttributeError, KeyError, IndexError)))
            break
        k, d, f = v
        E.claim('name', list(k) == ['s%d' % i] and list(f) == [fs] and len(d) == 1)
        E.claim('length', d[0].shape == want[i].shape)
        E.eq('samples', d[0], want[i])
    else:
        E.claim('end', r.eof())
    r = RAR(scp, src)
    for k, i in (('s1', 1), ('s0', 0)):
        bad, v = E.attempt(lambda: r.read(k), Exception)
        E.claim('refused by name', bad == late[i])
        if not bad:
            d, f = v
            E.claim('length by name', len(d) == 1 and d[0].shape == want[i].shape and list(f) == [fs])
            E.eq('samples by name', d[0], want[i])
    bad, v = E.attempt(lambda: r.read('s2'), Exception)
    E.claim('unknown segment', bad)
    E.claim('list not changed', sl.index_by_file == bool(by_file))


@harness('P15', configs=[dict(nf=nf, n=n) for nf, n in ((1, 3), (2, 1), (3, 2))], patch=patch, bounds='up to 3 recordings and segments, more or less segments than recordings, two reads')
def segment_pieces(E, nf, n):
    """all the segments come, whatever the number of recordings"""
    names = ['1', '0', '02'][:nf]
    keys, x, scp = files(E, [3] * nf, names=names)
    fi = [E.choice('f%d' % i, nf) for i in range(n)]
    at = [E.choice('b%d' % i, 2) for i in range(n)]
    sl = SegmentList.create(['0%d' % i for i in range(n)], [names[f] for f in fi], [.25 * a for a in at], [.25 * a + .5 for a in at], index_by_file=False)
    sf = E.tmp('segments')
    sl.save(sf)
    r = SAR(scp, sf, wav_scale=2. ** 15)
    m = E.choice('n0', n + 1)
    k, d, f = r.read(m) if m else ([], [], [])
    k2, d2, f2 = r.read()
    E.claim('end', r.eof())
    E.reach()
    E.claim('sizes', len(k) == m and len(k2) == n - m)
    E.claim('names', list(k) + list(k2) == ['0%d' % i for i in range(n)])
    for i, v in enumerate(list(d) + list(d2)):
        E.claim('length', v.shape == (2,))
        E.eq('samples', v, x[fi[i]][at[i]:at[i] + 2])
    r.reset()
    E.claim('iterated', [a for a, _, _ in r] == ['0%d' % i for i in range(n)])


@harness('P15', patch=patch, bounds='one recording; failing commands, unknown formats and files')
def errors(E):
    keys, x, scp = files(E, [2])
    with open(scp) as f:
        path = f.read().split()[1]
    y, fs = ar.AudioReader.read_wavspecifier(' cat %s | ' % path, 1)
    E.reach()
    E.claim('frequency', fs == 4)
    E.eq('samples of the pipe', y * 2 ** 15, x[0])
    y, fs = ar.AudioReader.read_wavspecifier(path + ' ', 2)
    E.eq('samples of the file', y * 2 ** 14, x[0])
    E.claim('failing command', E.attempt(lambda: ar.AudioReader.read_wavspecifier('cat %s && false |' % path))[0])
    os.rename(path, path + '.txt')
    E.claim('unknown format', E.attempt(lambda: ar.AudioReader.read_wavspecifier(path + '.txt'))[0])
    E.claim('missing file', E.attempt(lambda: ar.AudioReader.read_wavspecifier(path))[0])
