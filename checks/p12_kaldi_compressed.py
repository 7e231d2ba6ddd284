"""Compressed Kaldi matrices: error of each method, layout, partial reads, conversions"""
import io
import itertools
import struct
import numpy as np
from symx import core
from symx.harness import harness, s_and, s_or
from symx.symbytes import SymFile, SymBytes, Region, RegionFile, cells, norm, patch_bytes
from symx.util import array
from hyperion.utils.kaldi_matrix import KaldiMatrix, KaldiCompressedMatrix
from hyperion.utils.kaldi_io_funcs import init_kaldi_input_stream, init_kaldi_output_stream
from checks.p11_kaldi_matrix import Stream, Track

TOL = 1e-5
TOK = {1: 'CM', 2: 'CM2', 3: 'CM3'}


def mat(E, x):
    return E.typed(x, 'float32')


def near(E, nm, a, b, eps):
    E.claim(nm, s_and(a - b <= eps, b - a <= eps))


@harness('P12', configs=[dict(method=m, shape=s, r=r) for m in ('auto', '2byte-auto', '1byte-auto') for s in ((1, 2), (3, 1), (2, 2)) for r in (1.0, 8.0)],
         patch=patch_bytes, bounds='up to 2 by 2 or 3 by 1, values spanning exactly 1 or 8 above any minimum from -5 to 5')
def uniform(E, method, shape, r):
    """every value is kept within half a step of the range"""
    m = E.real('m', lo=-5, hi=5)
    t = E.real('t', shape, lo=0, hi=1)
    k = int(np.prod(shape))
    i, j = E.choice('imin', k), E.choice('imax', k)
    E.assume(i != j)
    t = t.reshape(-1)
    t[i], t[j] = 0.0, 1.0
    x = mat(E, (m + r * t).reshape(shape))
    c = KaldiCompressedMatrix.compress(x, method)
    y = c.to_ndarray()
    E.reach()
    E.claim('shape', y.shape == tuple(shape) and c.num_rows == shape[0] and c.num_cols == shape[1])
    steps = 255 if method.startswith('1') else 65535
    E.claim('format', c.data_format == (3 if steps == 255 else 2))
    for ix in np.ndindex(*shape):
        near(E, 'error %s' % (ix,), y[ix], x[ix], 0.51 * r / steps + 1e-5)


@harness('P12', configs=[dict(method=m) for m in ('2byte-signed-integer', '1byte-unsigned-integer', '1byte-0-1')], patch=patch_bytes, bounds='two values, inside and outside of the range of the method')
def fixed(E, method):
    """methods of fixed range: half a step of error inside the range, the nearest end outside"""
    lo, hi, n = {'2byte-signed-integer': (-32768.0, 32767.0, 65535), '1byte-unsigned-integer': (0.0, 255.0, 255), '1byte-0-1': (0.0, 1.0, 255)}[method]
    x = mat(E, E.real('x', (2, 1), lo=lo - 10, hi=hi + 10))
    y = KaldiCompressedMatrix.compress(x, method).to_ndarray()
    E.reach()
    for i in range(2):
        v = x[i, 0]
        v = lo if bool(v < lo) else hi if bool(v > hi) else v
        near(E, 'error %d' % i, y[i, 0], v, 0.51 * (hi - lo) / n + 1e-3 * (hi - lo) / n)


@harness('P12', configs=[dict(method=m, shape=s) for m in ('auto', '2byte-auto', '1byte-auto', 'speech-feat') for s in ((1, 1), (2, 2))], patch=patch_bytes, bounds='up to 2 by 2')
def constant(E, method, shape):
    """matrices of equal values keep them"""
    v = E.real('v', lo=-5, hi=5)
    x = mat(E, array(E, [[v] * shape[1]] * shape[0]))
    y = KaldiCompressedMatrix.compress(x, method).to_ndarray()
    E.reach()
    for ix in np.ndindex(*shape):
        near(E, 'value', y[ix], v, 1e-4 if method != 'speech-feat' else 1e-3)


ORD = {3: (2, 0, 1), 4: (1, 3, 0, 2), 5: (3, 0, 4, 1, 2), 6: (5, 2, 0, 4, 1, 3), 9: (8, 3, 1, 6, 0, 4, 7, 2, 5)}
# the sorted column: a range of values or one value
COL = {1: [(0, 1)], 2: [(0, 1), (0, 1)], 3: [(0, 0.3), (0.2, 0.6), (0.5, 1)], 4: [(0, 0.2), 0.3, (0.3, 0.5), (0.6, 1)],
       5: [0.0, (0.01, 0.3), (0.2, 0.5), (0.6, 0.8), 1.0], 6: [0.1, (0.2, 0.4), 0.5, (0.6, 0.8), (0.7, 0.9), 0.9],
       9: [0.0, 0.2, (0.2, 0.4), 0.42, (0.4, 0.6), 0.6, (0.7, 0.8), 0.9, 1.0]}


@harness('P12', configs=[dict(n=n, method='speech-feat') for n in (1, 2, 3, 4, 5, 6)] + [dict(n=9, method='auto')], patch=patch_bytes,
         bounds='columns of up to 9 values in a matrix spanning 1 (from 3 values: one order, from 4 values: up to 3 of them in a range and the others fixed)')
def speech(E, n, method):
    """the column keeps its quartiles to a step of 16 bits and its values to half a step between quartiles"""
    s = [E.real('t%d' % k, lo=v[0], hi=v[1]) if isinstance(v, tuple) else v for k, v in enumerate(COL[n])]
    if n > 2:
        for i in range(1, n):
            E.assume(s[i - 1] <= s[i])
    t = array(E, [s[k] for k in ORD.get(n, range(n))])
    m = 0.25
    x = mat(E, array(E, [[t[i] + m, m if i % 2 else 1 + m] if n > 1 else [t[i] + m, m, 1 + m] for i in range(n)]))
    c = KaldiCompressedMatrix.compress(x, method)
    y = c.to_ndarray()
    code, at = c.get_data_attrs()
    E.reach()
    E.claim('format', c.data_format == 1)
    u = 1.0 / 65535
    p = [m + u * at['perc'][k] for k in range(4)]
    so = sorted(range(n), key=lambda i: sum(1 for j in range(n) if j != i and (bool(t[j] < t[i]) or (j < i and not bool(t[i] < t[j])))))
    q = [0, n // 4, 3 * (n // 4), n - 1] if n >= 5 else [0, 1, 2, 3]
    for k in range(4):
        if q[k] < n:
            near(E, 'quartile %d' % k, p[k], t[so[q[k]]] + m, 3.6 * u)
        if k:
            E.claim('quartiles grow', p[k] >= p[k - 1] + 0.9 * u)
    for i in range(n):
        v = t[i] + m
        k = 0 if bool(v < p[1]) else 1 if bool(v < p[2]) else 2
        near(E, 'error %d' % i, y[i, 0], v, (p[k + 1] - p[k]) * 0.51 / (64, 128, 63)[k] + 4 * u)


def coded(E, fmt, R, C, small=False):
    """a compressed matrix with arbitrary codes: codes, percentiles, bytes after the token"""
    mn, rg = E.real('mn', lo=-5, hi=5), E.real('rg', lo=0.1, hi=5)
    perc = None
    if fmt == 1:
        d = E.int('d', 1, 1000, shape=(C, 4))
        perc = np.empty((C, 4), dtype=object)
        for c in range(C):
            a = 0
            for k in range(4):
                a = a + d[c, k]
                perc[c, k] = a
    hi = 65535 if fmt == 2 else 255
    code = E.int('k', 0, hi, shape=(R, C)) if not small else np.array([[(7 * r + 11 * c) % 256 for c in range(C)] for r in range(R)])
    if E.symbolic:
        f4 = lambda v: cells(v, '<f4')
        h = f4(mn) + f4(rg) + cells(R, '<i4') + cells(C, '<i4')
        if fmt == 1:
            for c in range(C):
                for k in range(4):
                    h += cells(perc[c, k], '<u2')
        for a, b in itertools.product(range(C), range(R)) if fmt == 1 else itertools.product(range(R), range(C)):
            h += cells(code[b, a] if fmt == 1 else code[a, b], '<u2' if fmt == 2 else 'u1')
        return mn, rg, perc, code, SymBytes(h)
    h = struct.pack('<ffii', float(mn), float(rg), R, C)
    mn, rg = struct.unpack('<ff', h[:8])
    if fmt == 1:
        h += np.asarray(perc).astype('<u2').tobytes()
    k = np.asarray(code)
    h += (k.T if fmt == 1 else k).astype('<u2' if fmt == 2 else 'u1').tobytes()
    return mn, rg, perc, code, h


def decode(fmt, mn, rg, p, v):
    if fmt == 2:
        return mn + rg * v / 65535
    if fmt == 3:
        return mn + rg * v / 255
    q = [mn + rg * a / 65535 for a in p]
    if bool(v <= 64):
        return q[0] + (q[1] - q[0]) * v / 64
    if bool(v <= 192):
        return q[1] + (q[2] - q[1]) * (v - 64) / 128
    return q[2] + (q[3] - q[2]) * (v - 192) / 63


SH = [(1, s) for s in ((1, 1), (2, 1), (1, 2), (3, 1))] + [(f, s) for f in (2, 3) for s in ((1, 1), (2, 2), (3, 2))]


@harness('P12', configs=[dict(fmt=f, shape=s) for f, s in SH], patch=patch_bytes, bounds='up to 3 by 2 (formats of 2 and 1 byte) or 3 values (speech format), every code, quartiles, minimum and range')
def formats(E, fmt, shape):
    """codes mean what Kaldi says"""
    R, C = shape
    mn, rg, perc, code, b = coded(E, fmt, R, C)
    st = Stream(E)
    st.w.write(b'\0B' + TOK[fmt].encode() + b' ')
    st.w.write(b)
    end = st.w.tell()
    st.w.write(b'next')
    want = array(E, [[decode(fmt, mn, rg, perc[c] if fmt == 1 else None, code[r, c]) for c in range(C)] for r in range(R)])
    f = st.reader()
    E.claim('binary', init_kaldi_input_stream(f) is True)
    y = KaldiMatrix.read(f, True).to_ndarray()
    E.reach()
    E.claim('end', f.tell() == end)
    E.eq('values', y, want, TOL)
    f = st.reader()
    f.seek(2)
    E.claim('shape', KaldiMatrix.read_shape(f, True) == (R, C))
    E.claim('end after shape', f.tell() == end)
    f = st.reader()
    f.seek(2)
    c = KaldiCompressedMatrix.read(f, True)
    E.claim('header', c.num_rows == R and c.num_cols == C and c.data_format == fmt)
    E.eq('min and range', array(E, [c.min_value, c.data_range]), array(E, [mn, rg]), TOL)
    # written again it is the same
    s2 = Stream(E)
    init_kaldi_output_stream(s2.w, True)
    c.write(s2.w, True)
    E.claim('size', s2.w.tell() == end)
    g = s2.reader()
    init_kaldi_input_stream(g)
    E.eq('written', KaldiMatrix.read(g, True).to_ndarray(), want, TOL)


@harness('P12', configs=[dict(fmt=f, shape=s, seq=q, small=m) for f, s, m in ((1, (3, 1), 0), (1, (2, 2), 1), (1, (3, 2), 1), (2, (3, 2), 0), (3, (3, 2), 0), (2, (2, 1), 0)) for q in (True, False)], patch=patch_bytes,
         bounds='up to 3 by 2, every range of rows; codes of speech matrices with two columns are fixed')
def partial(E, fmt, shape, seq, small):
    """reading some rows gives those rows of the matrix"""
    R, C = shape
    mn, rg, perc, code, b = coded(E, fmt, R, C, small)
    st = Stream(E)
    st.w.write(TOK[fmt].encode() + b' ')
    st.w.write(b)
    end = st.w.tell()
    st.w.write(b'next')
    r0, n = E.cint('r0', 0, R), E.cint('n', 0, R)
    E.assume(r0 + n <= R)
    f = st.reader()
    y = KaldiMatrix.read(f, True, row_offset=r0, num_rows=n, sequential_mode=seq).to_ndarray()
    full = KaldiMatrix.read(st.reader(), True).to_ndarray()
    E.reach()
    if seq:
        E.claim('end', f.tell() == end)
    E.claim('shape', full.shape == (R, C))
    E.eq('rows', y, full[r0:] if n == 0 else full[r0:r0 + n], TOL)
    f = st.reader()
    E.claim('shape', KaldiCompressedMatrix.read_shape(f, True, sequential_mode=seq) == (R, C))
    if seq:
        E.claim('end after shape', f.tell() == end)


@harness('P12', configs=[dict(fmt=f, C=c, part=p) for f, c in ((1, 1), (1, 2), (1, 3), (2, 0), (3, 0)) for p in (0, 1)], text=True, patch=patch_bytes,
         bounds='any number of rows up to 100000, of columns up to 100000 (1 to 3 in speech matrices), any range of rows', assumptions=['the codes are opaque: what is decided is which bytes are read and skipped (the replay uses small sizes)'])
def sizes(E, fmt, C, part):
    it = 2 if fmt == 2 else 1
    R = E.int('R', 1, 100000)
    C = C or E.int('C', 1, 100000)
    r0, n = E.int('r0', 0, 100000), E.int('n', 0, 100000)
    if part:
        E.assume(n >= 1)
        E.assume(r0 + n <= R)
    else:
        E.assume(r0 == 0)
        E.assume(n == 0)
    tok = TOK[fmt].encode() + b' '
    ph = 8 * C if fmt == 1 else 0
    k = n if part else R
    if E.symbolic:
        h = list(tok) + list(struct.pack('<ff', 0.0, 1.0)) + cells(R, '<i4') + cells(C, '<i4')
        H = len(h)
        f = RegionFile(h)
        c = KaldiCompressedMatrix.read(f, True, row_offset=r0, num_rows=n)
        d = c.data if isinstance(c.data, SymBytes) else SymBytes(c.data)
        regs = [e for e in d.e if isinstance(e, Region)]
        E.claim('header bytes', len([e for e in d.e if not isinstance(e, Region)]) == 20)
        regs = [(e.start, e.n) for e in regs]
    else:
        R, C, r0, n, k = int(R), int(C), int(r0), int(n), int(k)
        E.assume(R * C < 10000)
        h = tok + struct.pack('<ffii', 0.0, 1.0, R, C)
        H = len(h)
        f = Track(h)
        c = KaldiCompressedMatrix.read(f, True, row_offset=r0, num_rows=n)
        regs = [e for e in f.big if e[0] >= H]
    E.reach()
    E.claim('rows', c.num_rows == k)
    E.claim('columns', c.num_cols == C)
    # what is read, in order
    if fmt == 1:
        want = [(H, ph)] + [(H + ph + j * R + r0, k) for j in range(C)]
    else:
        want = [(H + r0 * C * it, k * C * it)]
    if fmt == 1 and len(regs) == 1:
        E.claim('only whole matrices are read at once', s_and(r0 == 0, k == R))
        want = [(H, ph + R * C)]
    E.claim('number of reads', len(regs) == len(want))
    if len(regs) == len(want):
        for j, (a, b) in enumerate(zip(regs, want)):
            E.claim('first byte %d' % j, a[0] == b[0])
            E.claim('bytes %d' % j, a[1] == b[1])
    E.claim('next matrix', f.tell() == H + ph + R * C * it)
    f = RegionFile(h) if E.symbolic else Track(h)
    s = KaldiCompressedMatrix.read_shape(f, True)
    E.claim('shape', s_and(s[0] == R, s[1] == C))
    E.claim('next matrix after shape', f.tell() == H + ph + R * C * it)


@harness('P12', configs=[dict(fmt=f, shape=s) for f, s in ((1, (2, 1)), (1, (1, 2)), (2, (2, 2)), (3, (2, 2)))], patch=patch_bytes, bounds='up to 2 by 2, every code')
def convert(E, fmt, shape):
    """codes and attributes rebuild the matrix; scaling multiplies it"""
    R, C = shape
    mn, rg, perc, code, b = coded(E, fmt, R, C)
    tok = struct.pack('<i', fmt)
    c = KaldiCompressedMatrix(tok + b)
    full = c.to_ndarray()
    data, at = c.get_data_attrs()
    E.claim('shape', data.shape == (R, C))
    E.same('codes', data, code)
    if fmt == 1:
        E.same('quartiles', np.asarray(at['perc']).ravel(), np.asarray(perc).ravel())
    d = KaldiCompressedMatrix.build_from_data_attrs(data, at)
    E.eq('rebuilt', d.to_ndarray(), full, TOL)
    E.claim('format', d.data_format == fmt and d.num_rows == R and d.num_cols == C)
    # some rows rebuilt
    r0 = E.choice('row', R)
    e = KaldiCompressedMatrix.build_from_data_attrs(data[r0:r0 + 1], at)
    E.eq('rows rebuilt', e.to_ndarray(), full[r0:r0 + 1], TOL)
    a = E.real('a', lo=0.1, hi=3)
    d.scale(a)
    E.reach()
    E.eq('scaled', d.to_ndarray(), a * full, 1e-4)
    E.eq('scaled header', KaldiCompressedMatrix(d.data).to_ndarray(), a * full, 1e-4)
    E.eq('matrix', c.to_matrix().to_ndarray(), full, TOL)
