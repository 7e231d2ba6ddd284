"""Binary files with symbolic contents: byte strings whose bytes belong to symbolic values, struct, frombuffer, files

A byte string is a list of elements: plain integers, cells (byte k of a value of a numpy type) and regions (a run of
bytes, with symbolic start and length, of a file whose contents do not matter)."""
import io
import os
import struct as _struct
import numpy as np
from . import core, symnp
from .core import Sym, SBool, Unsupported
from .symnp import SymArray, arr, isO, is_symobj

_DT = {'b': 'i1', 'B': 'u1', 'h': '<i2', 'H': '<u2', 'i': '<i4', 'I': '<u4', 'q': '<i8', 'Q': '<u8', 'f': '<f4', 'd': '<f8'}


class Cell(object):
    __slots__ = ('v', 'dt', 'k')

    def __init__(self, v, dt, k):
        self.v, self.dt, self.k = v, dt, k


class Region(object):
    """bytes [start, start + n) of a file"""
    __slots__ = ('start', 'n')

    def __init__(self, start, n):
        self.start, self.n = start, n


def _len(e):
    return e.n if isinstance(e, Region) else 1


def _idx(v):
    return v.__index__() if isinstance(v, Sym) else int(v)


class SymBytes(object):
    def __init__(self, e=()):
        self.e = list(e)

    @staticmethod
    def of(b):
        if isinstance(b, SymBytes):
            return b
        if isinstance(b, (bytes, bytearray, memoryview)):
            return SymBytes(bytes(b))
        raise TypeError('a bytes-like object is required, not %s' % type(b).__name__)

    def size(self):
        n = 0
        for e in self.e:
            n = n + _len(e)
        return n

    def __len__(self):
        return _idx(self.size())

    def __bool__(self):
        return bool(self.size() > 0)

    def __add__(self, o):
        return SymBytes(self.e + SymBytes.of(o).e)

    def __radd__(self, o):
        return SymBytes(SymBytes.of(o).e + self.e)

    def concrete(self):
        return all(isinstance(e, int) for e in self.e)

    def tobytes(self):
        if not self.concrete():
            raise Unsupported('bytes of symbolic values')
        return bytes(self.e)

    __bytes__ = tobytes

    def __eq__(self, o):
        if not isinstance(o, (bytes, SymBytes)):
            return False
        o = SymBytes.of(o)
        if not any(isinstance(e, Region) for e in self.e + o.e):
            if len(self.e) != len(o.e):
                return False
            if any(isinstance(a, int) and isinstance(b, int) and a != b for a, b in zip(self.e, o.e)):
                return False
        return self.tobytes() == o.tobytes()

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __getitem__(self, ix):
        if not isinstance(ix, slice):
            if any(isinstance(e, Region) for e in self.e):
                raise Unsupported('byte of a region')
            e = self.e[_idx(ix)]
            if not isinstance(e, int):
                raise Unsupported('byte of a symbolic value')
            return e
        if ix.step not in (None, 1):
            raise Unsupported('stride of symbolic bytes')
        if not any(isinstance(e, Region) for e in self.e):
            return SymBytes(self.e[slice(None if ix.start is None else _idx(ix.start), None if ix.stop is None else _idx(ix.stop))])
        a = 0 if ix.start is None else ix.start
        b = ix.stop
        out, pos, started = [], 0, False
        for e in self.e:
            if not started:
                if not bool(pos == a):
                    if isinstance(e, Region) and not bool(pos + e.n <= a):
                        raise Unsupported('slice inside a region')
                    pos = pos + _len(e)
                    continue
                started = True
            if b is not None:
                if bool(pos == b):
                    break
                if isinstance(e, Region) and not bool(pos + e.n <= b):
                    raise Unsupported('slice inside a region')
            out.append(e)
            pos = pos + _len(e)
        return SymBytes(out)

    def decode(self, *a):
        return self.tobytes().decode(*a)

    def split(self, *a):
        return self.tobytes().split(*a)

    def strip(self, *a):
        return self.tobytes().strip(*a)

    def __repr__(self):
        return 'SymBytes(%d)' % len(self.e)


def norm(b):
    """plain bytes when nothing is symbolic"""
    return b.tobytes() if b.concrete() else b


def cells(v, dt):
    dt = np.dtype(dt)
    if isinstance(v, SBool):
        v = core.lift(v)
    if isinstance(v, Sym) and v.is_const():
        v = float(v.const()) if dt.kind == 'f' else int(v.const())
    if isinstance(v, Sym):
        if dt.kind in 'iu' and not v.is_int:
            raise _struct.error('required argument is not an integer')
        if dt.kind in 'iu':
            info = np.iinfo(dt)
            if bool(v < int(info.min)) or bool(v > int(info.max)):
                raise Unsupported('integer overflow')
        return [Cell(v, dt.newbyteorder('<'), k) for k in range(dt.itemsize)]
    return list(np.array(v).astype(dt).tobytes())


def value(es, dt):
    """value of dtype dt stored in the bytes es"""
    dt = np.dtype(dt).newbyteorder('<')
    if all(isinstance(e, int) for e in es):
        return np.frombuffer(bytes(es), dtype=dt)[0].item()
    c = es[0]
    if isinstance(c, Cell) and c.dt == dt and all(isinstance(e, Cell) and e.v is c.v and e.k == i and e.dt == dt for i, e in enumerate(es)):
        return c.v
    raise Unsupported('bytes of symbolic values read out of place')


class Struct(object):
    """the struct module"""
    error = _struct.error

    @staticmethod
    def _codes(fmt):
        f = fmt.lstrip('<=')
        if any(c not in _DT for c in f) or (fmt[0] not in '<=' and len(f) > 1):
            raise Unsupported('struct format ' + fmt)
        return f

    @staticmethod
    def pack(fmt, *v):
        if not any(is_symobj(x) for x in v):
            return _struct.pack(fmt, *v)
        f = Struct._codes(fmt)
        if len(f) != len(v):
            raise _struct.error('pack expected %d items' % len(f))
        out = []
        for c, x in zip(f, v):
            out += cells(x, _DT[c]) if is_symobj(x) else list(_struct.pack('<' + c, x))
        return norm(SymBytes(out))

    @staticmethod
    def unpack(fmt, b):
        if isinstance(b, (bytes, bytearray)):
            return _struct.unpack(fmt, b)
        f = Struct._codes(fmt)
        if any(isinstance(e, Region) for e in b.e):
            raise Unsupported('struct of a region')
        if len(b.e) != _struct.calcsize('<' + f):
            raise _struct.error('unpack requires a buffer of %d bytes' % _struct.calcsize('<' + f))
        out, p = [], 0
        for c in f:
            n = _struct.calcsize('<' + c)
            out.append(value(b.e[p:p + n], _DT[c]))
            p += n
        return tuple(out)

    calcsize = staticmethod(_struct.calcsize)


class RegionArray(object):
    """numbers stored in a region"""
    def __init__(self, start, n, dtype, shape):
        self.start, self.n, self.dtype, self.shape = start, n, np.dtype(dtype), shape
        self.ndim = len(shape)


def frombuffer(b, dtype=float, **k):
    if isinstance(b, (bytes, bytearray, memoryview)):
        return np.frombuffer(b, dtype=symnp._real_dtype(dtype), **k)
    dt = np.dtype(symnp._real_dtype(dtype))
    if len(b.e) == 1 and isinstance(b.e[0], Region):
        r = b.e[0]
        n = core.lift(r.n)
        if not bool(n % dt.itemsize == 0):
            raise ValueError('buffer size must be a multiple of element size')
        return RegionArray(r.start, r.n, dt, (r.n // dt.itemsize,))
    if any(isinstance(e, Region) for e in b.e):
        raise Unsupported('frombuffer of regions')
    if len(b.e) % dt.itemsize:
        raise ValueError('buffer size must be a multiple of element size')
    out = np.empty((len(b.e) // dt.itemsize,), dtype=object)
    for i in range(len(out)):
        out[i] = value(b.e[i * dt.itemsize:(i + 1) * dt.itemsize], dt)
    r = out.view(SymArray)
    r._dt = dt
    return r


def reshape(a, shape, *k, **kw):
    if isinstance(a, RegionArray):
        n = 1
        for s in shape:
            n = n * s
        if not bool(core.lift(n) * a.dtype.itemsize == a.n):
            raise ValueError('cannot reshape array')
        return RegionArray(a.start, a.n, a.dtype, tuple(shape))
    return _reshape(a, shape, *k, **kw)


_reshape = symnp.S.reshape


def tobytes(a):
    dt = a._dt if a._dt is not None else np.dtype('f8')
    out = []
    for e in np.asarray(a).ravel():
        out += cells(e, dt)
    return norm(SymBytes(out))


class SymFile(object):
    """file open for reading or writing over a list of bytes"""
    def __init__(self, buf, mode='rb', peeks=None, name=None):
        self.buf, self.mode, self.pos, self.name = buf, mode, 0, name
        self.peeks = peeks          # () -> how many bytes a peek may return
        self.closed = False

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def read(self, n=-1):
        self._chk()
        n = _idx(n)
        if n < 0:
            n = len(self.buf)
        r = self.buf[self.pos:self.pos + n]
        self.pos += len(r)
        return norm(SymBytes(r))

    def peek(self, n=0):
        self._chk()
        m = len(self.buf) - self.pos
        if self.peeks is not None:
            m = min(m, self.peeks())
        return norm(SymBytes(self.buf[self.pos:self.pos + m]))

    def seek(self, off, whence=0):
        self._chk()
        off = _idx(off)
        p = off + (0 if whence == 0 else self.pos if whence == 1 else len(self.buf))
        if p < 0:
            raise OSError('Invalid argument')
        self.pos = p
        return p

    def tell(self):
        self._chk()
        return self.pos

    def write(self, b):
        self._chk()
        if 'b' in self.mode:
            e = SymBytes.of(b).e
        else:
            e = list(b.encode('utf-8'))
        self.buf[self.pos:self.pos + len(e)] = e
        self.pos += len(e)
        return len(e)

    def readline(self):
        self._chk()
        out = []
        while self.pos < len(self.buf):
            e = self.buf[self.pos]
            out.append(e)
            self.pos += 1
            if isinstance(e, int) and e == 10:
                break
        return norm(SymBytes(out))

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if not len(l):
            raise StopIteration
        return l

    def flush(self):
        self._chk()

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class RegionFile(object):
    """file whose first elements are known and the rest, as long as needed, does not matter"""
    def __init__(self, head):
        self.head, self.pos = list(head), 0

    def _know(self):
        p = core.lift(self.pos)
        if type(p) is not float and p.is_const() and p.const() < len(self.head):
            return int(p.const())
        return None

    def peek(self, n=0):
        p = self._know()
        if p is None:
            raise Unsupported('peek of a region')
        return norm(SymBytes(self.head[p:]))

    def read(self, n=-1):
        p = self._know()
        if p is not None:
            n = _idx(n)
            if p + n > len(self.head):
                raise Unsupported('read over the border of a region')
            self.pos = p + n
            return norm(SymBytes(self.head[p:p + n]))
        r = Region(self.pos, n)
        self.pos = self.pos + n
        return SymBytes([r])

    def seek(self, off, whence=0):
        if whence == 2:
            raise Unsupported('seek from the end of a region')
        self.pos = off if whence == 0 else self.pos + off

    def tell(self):
        return self.pos


class Disk(object):
    """open() with the binary files in memory; text files are real"""
    def __init__(self, peeks=None):
        self.files, self.peeks, self.opened = {}, peeks, []

    def open(self, path, mode='r', *a, **k):
        if 'b' not in mode and path not in self.files and not str(path).endswith('.ark'):
            return io.open(path, mode, *a, **k)
        if 'w' in mode:
            self.files[path] = []
        elif path not in self.files:
            if os.path.exists(path):
                with io.open(path, 'rb') as f:
                    self.files[path] = list(f.read())
            else:
                raise FileNotFoundError(2, 'No such file or directory', path)
        f = SymFile(self.files[path], mode, self.peeks, path)
        self.opened.append(f)
        return f


class Peeky(io.BufferedReader):
    """real file that returns few bytes when peeked (a buffer may end anywhere)"""
    peeks = None

    def peek(self, n=0):
        r = super().peek(n)
        return r[:self.peeks()] if self.peeks is not None else r


def patch_bytes(env):
    import hyperion.utils.kaldi_matrix as km
    import hyperion.utils.kaldi_io_funcs as kf
    return dict(extra=[(_struct, Struct)],
                setattrs=[(symnp, 'INT_OBJ', [True]), (symnp.S, 'frombuffer', frombuffer), (symnp.S, 'reshape', reshape), (SymArray, 'tobytes', lambda self, order='C': tobytes(self))])
