"""Kaldi matrices: binary and text round trips, partial reads, positions of the stream"""
import io
import struct
import numpy as np
from symx import core
from symx.harness import harness, s_and, s_or
from symx.symbytes import SymFile, SymBytes, RegionFile, RegionArray, Peeky, cells, patch_bytes
from symx.util import array
from hyperion.utils.kaldi_matrix import KaldiMatrix, KaldiCompressedMatrix
from hyperion.utils.kaldi_io_funcs import init_kaldi_input_stream, init_kaldi_output_stream, read_token, write_token

TOL = 1e-6


class Stream(object):
    """binary stream to write and then to read, any number of whose bytes a peek may return"""
    def __init__(self, E, peeks=False):
        self.E = E
        self.n = 0
        self.fn = None
        if peeks:
            self.fn = self._peek
        if E.symbolic:
            self.buf = []
            self.w = SymFile(self.buf, 'wb')
        else:
            self.w = io.BytesIO()

    def _peek(self):
        self.n += 1
        return 1 + self.E.choice('peek%d' % self.n, 2)

    def reader(self):
        if self.E.symbolic:
            return SymFile(self.buf, 'rb', self.fn)
        f = Peeky(io.BytesIO(self.w.getvalue()))
        f.peeks = self.fn
        return f


def matrix(E, nm, dt, shape):
    return E.typed(E.real(nm, shape, lo=-5, hi=5), dt)


def rows_of(x, r0, n):
    if x.ndim == 1:
        return x
    return x[r0:] if n == 0 else x[r0:r0 + n]


@harness('P11', configs=[dict(dt=d, shapes=s, seq=q) for d in ('float32', 'float64') for s in ([(2, 3), (1, 1)], [(3,), (3, 1)], [(1, 2), (2,)], [(0, 2), (1, 2)]) for q in (True, False)],
         patch=patch_bytes, bounds='two matrices of up to 3 by 3 in the stream, every value, every range of rows')
def binary(E, dt, shapes, seq):
    st = Stream(E)
    x = [matrix(E, 'x%d' % i, dt, s) for i, s in enumerate(shapes)]
    pos = []
    for a in x:
        pos.append(st.w.tell())
        init_kaldi_output_stream(st.w, True)
        KaldiMatrix(a).write(st.w, True)
    pos.append(st.w.tell())
    f = st.reader()
    for i, a in enumerate(x):
        R = a.shape[0] if a.ndim == 2 else 0
        r0 = E.cint('r%d' % i, 0, R)
        n = E.cint('n%d' % i, 0, R)
        E.assume(r0 + n <= R)
        if not seq:
            f.seek(pos[i])
        E.claim('binary', init_kaldi_input_stream(f) is True)
        m = KaldiMatrix.read(f, True, row_offset=r0, num_rows=n, sequential_mode=seq)
        if seq:
            E.claim('position %d' % i, f.tell() == pos[i + 1])
        y = m.to_ndarray()
        E.claim('type', y.dtype == np.dtype(dt))
        w = rows_of(a, r0, n)
        E.eq('rows %d' % i, y, w, TOL)
        E.claim('num_rows', m.num_rows == (1 if a.ndim == 1 else w.shape[0]) and m.num_cols == a.shape[-1])
    f = st.reader()
    E.reach()
    for i, a in enumerate(x):
        if not seq:
            f.seek(pos[i])
        init_kaldi_input_stream(f)
        E.claim('shape %d' % i, KaldiMatrix.read_shape(f, True, sequential_mode=seq) == a.shape)
        if seq:
            E.claim('position after shape %d' % i, f.tell() == pos[i + 1])


@harness('P11', configs=[dict(dt=d, shape=s) for d in ('int32', 'int64', 'int16', 'uint8', 'bool', 'float16') for s in ((2,), (2, 1))], patch=patch_bytes,
         bounds='two values of -3, 0, 1 or 7 of other types')
def other_types(E, dt, shape):
    """arrays of integers, booleans or half precision are read with the same values"""
    x = np.array([(0, 1, 7, -3)[E.choice('x%d' % i, 4 if dt[0] != 'u' else 3)] for i in range(2)]).astype(dt).reshape(shape)
    st = Stream(E)
    for t in range(2):
        init_kaldi_output_stream(st.w, True)
        KaldiMatrix(x).write(st.w, True)
    f = st.reader()
    E.reach()
    for t in range(2):
        init_kaldi_input_stream(f)
        y = KaldiMatrix.read(f, True).to_ndarray()
        E.claim('values', y.shape == x.shape)
        E.eq('values', y, x.astype(float), TOL)


@harness('P11', configs=[dict(shape=s, layout=l) for s in ((3, 2), (3,)) for l in 'FT'], patch=patch_bytes, bounds='up to 3 by 2, views of larger arrays and column order')
def layouts(E, shape, layout):
    """memory order of the array does not matter"""
    if len(shape) == 1:
        a = matrix(E, 'x', 'float32', (shape[0] * 2,))[::2]
    elif layout == 'T':
        a = matrix(E, 'x', 'float32', shape[::-1]).T
    else:
        a = matrix(E, 'x', 'float32', (shape[0] + 1, shape[1] + 1))[1:, :-1]
    st = Stream(E)
    KaldiMatrix(a).write(st.w, True)
    y = KaldiMatrix.read(st.reader(), True).to_ndarray()
    E.reach()
    E.eq('values', y, a, TOL)


@harness('P11', configs=[dict(n=n) for n in (1, 2)], patch=patch_bytes, bounds='up to 2 records of one row; a peek returns 1 or 2 bytes')
def buffers(E, n):
    """wherever the buffer of the file ends, keys and matrices are found"""
    st = Stream(E, peeks=True)
    x = [matrix(E, 'x%d' % i, 'float32', (1, 1)) for i in range(n)]
    for i in range(n):
        write_token(st.w, True, 'k%d' % i)
        init_kaldi_output_stream(st.w, True)
        KaldiMatrix(x[i]).write(st.w, True)
    f = st.reader()
    E.reach()
    for i in range(n):
        E.claim('key', read_token(f, True) == 'k%d' % i)
        E.claim('binary', init_kaldi_input_stream(f) is True)
        E.eq('values', KaldiMatrix.read(f, True).to_ndarray(), x[i], TOL)
    E.claim('end', read_token(f, True) == '')


def header(tok, nums):
    h = []
    h += list(tok.encode('ascii')) + [32]
    for v in nums:
        h += [4] + cells(v, '<i4')
    return h


class Track(io.RawIOBase):
    """records what is read and skipped in a stream that has no end"""
    def __init__(self, head):
        self.head, self.pos, self.big = head, 0, []

    def peek(self, n=0):
        return self.head[self.pos:self.pos + max(n, 1)]

    def read(self, n=-1):
        if self.pos < len(self.head):
            r = self.head[self.pos:self.pos + n]
        else:
            r = bytes(n)
        self.big.append((self.pos, n))
        self.pos += n
        return r

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off

    def tell(self):
        return self.pos


@harness('P11', configs=[dict(tok=t, part=p, seq=q) for t in ('FM', 'DM', 'FV', 'DV') for p in (0, 1) for q in (True, False) if not (t[1] == 'V' and p)], patch=patch_bytes,
         bounds='any numbers of rows and columns up to 100000 and any range of rows',
         assumptions=['the bytes of the matrix are opaque: what is decided is which bytes are read and skipped (the replay uses up to 50 rows and columns)'])
def sizes(E, tok, part, seq):
    it = 4 if tok[0] == 'F' else 8
    vec = tok[1] == 'V'
    R, C = E.int('R', 1, 100000), E.int('C', 1, 100000)
    if vec:
        E.assume(R == 1)
    r0 = E.int('r0', 0, 100000)
    n = E.int('n', 0, 100000)
    if part:
        E.assume(n >= 1)
        E.assume(r0 + n <= R)
    else:
        E.assume(r0 == 0)
        E.assume(n == 0)
    if E.symbolic:
        f = RegionFile(header(tok, [C] if vec else [R, C]))
        H = len(f.head)
    else:
        R, C = int(R), int(C)
        E.assume(R * C < 10000)
        h = tok.encode('ascii') + b' ' + b''.join(struct.pack('<bi', 4, v) for v in ([C] if vec else [R, C]))
        f = Track(h)
        H = len(h)
    m = KaldiMatrix.read(f, True, row_offset=r0, num_rows=n, sequential_mode=seq)
    E.reach()
    d = m.to_ndarray()
    k = n if part else R
    if E.symbolic:
        E.claim('opaque', isinstance(d, RegionArray))
        start, nb = d.start, d.n
    else:
        start, nb = f.big[-1]
    E.claim('first byte', start == H + r0 * C * it)
    E.claim('bytes', nb == k * C * it)
    E.claim('type', d.dtype == np.dtype('f%d' % it))
    if vec:
        E.claim('shape', len(d.shape) == 1 and d.shape[0] == C)
    else:
        E.claim('dims', len(d.shape) == 2)
        E.claim('rows', d.shape[0] == k)
        E.claim('columns', d.shape[1] == C)
    if seq:
        E.claim('next matrix', f.tell() == H + R * C * it)
    # shape only
    f = RegionFile(f.head) if E.symbolic else Track(f.head)
    s = KaldiMatrix.read_shape(f, True, sequential_mode=seq)
    E.claim('shape length', len(s) == (1 if vec else 2))
    E.claim('shape columns', s[-1] == C)
    if not vec:
        E.claim('shape rows', s[0] == R)
    if seq:
        E.claim('next matrix after shape', f.tell() == H + R * C * it)


@harness('P11', configs=[dict(over=o) for o in (0, 1)], text=True, patch=patch_bytes, bounds='any number of rows and columns up to 100000', assumptions=['the bytes of the matrix are opaque'])
def too_many(E, over):
    """rows that are not there are refused"""
    R, C = E.int('R', 1, 100000), E.int('C', 1, 100000)
    r0, n = E.int('r0', 0, 100001), E.int('n', 0, 100001)
    E.assume(r0 + n > R)
    E.assume(r0 <= R if over else n == 0)
    if E.symbolic:
        f = RegionFile(header('FM', [R, C]))
    else:
        E.assume(int(R) * int(C) < 10000)
        f = Track(b'FM ' + struct.pack('<bibi', 4, int(R), 4, int(C)))
    bad, _ = E.attempt(lambda: KaldiMatrix.read(f, True, row_offset=r0, num_rows=n))
    E.reach()
    E.claim('refused', bad)


class Text(object):
    """the text file a writer leaves and a reader opens in binary mode"""
    def __init__(self, E):
        self.p = E.tmp('m.txt')

    def write(self, s):
        with open(self.p, 'a') as f:
            f.write(s)

    def reader(self):
        return open(self.p, 'rb')


VALS = (0.0, -1.5, 123.25)


@harness('P11', configs=[dict(shapes=s) for s in ([(1, 2), (2,)], [(2, 1), (1, 1)], [(1,), (0,)], [(0,), (1, 1)], [(3, 2)])], bounds='up to 2 matrices of up to 3 by 2 with values of 0, -1.5 or 123.25')
def text(E, shapes):
    """values chosen by the solver from a set; text numbers are formatted by the interpreter"""
    f = Text(E)
    xs = []
    for i, s in enumerate(shapes):
        v = [VALS[E.choice('v%d_%d' % (i, k), 3)] if k < 3 else -1.5 for k in range(int(np.prod(s)))]
        xs.append(np.array(v, dtype='float32').reshape(s))
        write_token(f, False, 'k%d' % i)
        init_kaldi_output_stream(f, False)
        KaldiMatrix(xs[-1]).write(f, False)
    with f.reader() as g, f.reader() as h:
        for i, x in enumerate(xs):
            E.claim('key', read_token(g, False) == 'k%d' % i)
            E.claim('text', init_kaldi_input_stream(g) is False)
            y = KaldiMatrix.read(g, False).to_ndarray()
            E.same('values %d' % i, y, x)
            read_token(h, False)
            init_kaldi_input_stream(h)
            E.claim('shape %d' % i, KaldiMatrix.read_shape(h, False) == x.shape)
        E.claim('end', read_token(g, False) == '')
    E.reach()


@harness('P11', configs=[dict(t=t) for t in range(6)], bounds='texts that Kaldi writes')
def kaldi_text(E, t):
    v = VALS[E.choice('v', 3)]
    s, want = [(' [\n  %g 2 \n  3 4 ]\n', [[v, 2], [3, 4]]), (' [ %g 2 3 ]\n', [v, 2, 3]), (' [ ]\n', []), ('[]\n', []), ('\n [\n %g\n 2 ]\n', [[v], [2]]), (' [\n  %g ]\n', [[v]])][t]
    f = io.BufferedReader(io.BytesIO((s % v if '%' in s else s).encode()))
    y = KaldiMatrix.read(f, False)
    E.reach()
    E.same('values', y.to_ndarray(), np.array(want, dtype='float32'))
    E.claim('end', f.read() == b'')
