"""numpy / scipy.linalg facade used while /repo code runs symbolically.

Arrays are genuine numpy object arrays (class SymArray) so all the indexing,
broadcasting, sorting and reshaping is done by numpy itself; this module only
replaces what cannot work on object arrays (casts, float creation routines,
transcendental functions, LAPACK).
"""
import math
import types
import builtins
from fractions import Fraction
import numpy as np
import scipy.linalg as _sla
from . import core
from .core import Sym, SBool, Atom, Unsupported, lift, simp, const


_DT = np.ndarray.dtype.__get__


def isO(a):
    """object array (typed symbolic arrays included)"""
    return _DT(a) == object if isinstance(a, np.ndarray) else a.dtype == object


def is_symobj(v):
    return isinstance(v, (Sym, SBool, Atom, SymComplex))


def has_sym(v):
    if is_symobj(v):
        return True
    if isinstance(v, np.ndarray):
        return isO(v) and builtins.any(is_symobj(e) for e in v.flat)
    if isinstance(v, (list, tuple)):
        return builtins.any(has_sym(e) for e in v)
    return False


def kind_of(dtype):
    if dtype is None:
        return None
    if dtype is builtins.float or dtype is SFloat:
        return 'f'
    if dtype is builtins.int or dtype is SInt_:
        return 'i'
    if dtype is builtins.bool:
        return 'b'
    if dtype is object:
        return 'O'
    if dtype is str or dtype is SStr:
        return 'U'
    try:
        return np.dtype(dtype).kind
    except Exception:
        return 'O'


def cast_scalar(v, dtype):
    k = kind_of(dtype)
    if isinstance(v, (Atom,)):
        return v
    if k == 'f' and isinstance(v, SymComplex):
        return v.re
    if k in ('f', 'c', 'O', 'U', 'S', None):
        return v
    if k in ('i', 'u'):
        if isinstance(v, SBool):
            v = lift(v)
        return core.s_trunc(v) if isinstance(v, Sym) else int(v)
    if k == 'b':
        if BOOL_OBJ[0]:
            if isinstance(v, SBool):
                return v
            if isinstance(v, Sym):
                return v != 0
        return bool(v)
    return v


class SymArray(np.ndarray):
    """object array with symbolic-aware casts; _dt: the numpy type the array stands for (typed arrays)"""
    __array_priority__ = 20
    _dt = None

    def __array_finalize__(self, obj):
        d = getattr(obj, '_dt', None)
        if d is not None and _DT(self) == object:
            self._dt = d

    @property
    def dtype(self):
        d = self._dt
        return _DT(self) if d is None else d

    @dtype.setter
    def dtype(self, d):
        self._dt = np.dtype(d)

    def astype(self, dtype, *a, **kw):
        r = narrow(self._astype(dtype, *a, **kw), dtype)
        if self._dt is not None and isinstance(r, SymArray):
            r._dt = np.dtype(_real_dtype(dtype))
        return r

    def _astype(self, dtype, *a, **kw):
        k = kind_of(dtype)
        if not isO(self):
            return np.asarray(self).astype(_real_dtype(dtype), *a, **kw)
        if k in ('f', 'c', 'O', None):
            return self.copy() if k != 'f' else _emap(_re, self)
        if k in ('U', 'S'):
            if has_sym(self):
                return self.copy()
            return np.asarray(self).astype(dtype)
        out = np.empty(self.shape, dtype=object)
        flat = out.reshape(-1)
        for i, e in enumerate(np.asarray(self).flat):
            flat[i] = cast_scalar(e, dtype)
        out = flat.reshape(self.shape)
        if not has_sym(out):
            return np.asarray(out).astype(_real_dtype(dtype))
        return out.view(SymArray)

    def __getitem__(self, ix):
        r = np.ndarray.__getitem__(self, fix_index(ix))
        if self._dt is not None and type(r) in (int, float):
            r = np.float64(r) if self._dt.kind == 'f' else r
        return r

    def __setitem__(self, ix, v):
        if isinstance(v, SBool):
            v = lift(v)
        np.ndarray.__setitem__(self, fix_index(ix), v)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        r = self._ufunc(ufunc, method, *inputs, **kwargs)
        if type(r) is SymArray and builtins.any(getattr(x, '_dt', None) is not None for x in inputs):
            try:
                ds = [np.ones((1,) * np.ndim(x), x.dtype) if isinstance(x, np.ndarray) else
                      np.float64(1) if isinstance(x, Sym) and not x.is_int else 1 if is_symobj(x) else x for x in inputs]
                r._dt = (ufunc(*ds) if method == '__call__' else ds[0]).dtype
            except Exception:
                r._dt = None
        return r

    def _ufunc(self, ufunc, method, *inputs, **kwargs):
        f = _UNARY.get(ufunc.__name__) if method == '__call__' else None
        out = kwargs.get('out')
        if f is not None and len(inputs) == 1:
            r = _emap(f, inputs[0])
            if out is not None:
                o = out[0] if isinstance(out, tuple) else out
                o[...] = r
                return o
            return r
        if ufunc.__name__ in _BINARY and method == '__call__':
            r = _emap2(_BINARY[ufunc.__name__], inputs[0], inputs[1])
            if out is not None:
                o = out[0] if isinstance(out, tuple) else out
                o[...] = r
                return o
            return r
        ins = [np.asarray(x) if isinstance(x, SymArray) else x for x in inputs]
        if out is not None:
            outs = out if isinstance(out, tuple) else (out,)
            kwargs['out'] = tuple(np.asarray(o) if isinstance(o, SymArray) else o for o in outs)
        dt = kwargs.get('dtype')
        if dt is not None:
            kwargs.pop('dtype')
        if BOOL_OBJ[0] and method == '__call__' and ufunc.__name__ in _CMP:
            kwargs['dtype'] = object
        r = getattr(ufunc, method)(*ins, **kwargs)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            return o
        if isinstance(r, tuple):
            return tuple(wrap(e) for e in r)
        return wrap(r)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return S.std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return S.var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        return S.mean(self, axis=axis, keepdims=keepdims)

    def dot(self, o):
        return S.dot(self, o)

    def round(self, decimals=0, out=None):
        return S.round(self, decimals)

    def tobytes(self, order='C'):
        raise Unsupported('tobytes of symbolic array')

    def tofile(self, *a, **k):
        raise Unsupported('tofile of symbolic array')

    @property
    def real(self):
        return self

    def conj(self):
        return self

    def searchsorted(self, v, side='left', sorter=None):
        return S.searchsorted(self, v, side=side, sorter=sorter)


_CMP = ('greater', 'greater_equal', 'less', 'less_equal', 'equal', 'not_equal')


def fix_index(ix):
    if isinstance(ix, tuple):
        return tuple(fix_index1(i) for i in ix)
    return fix_index1(ix)


def fix_index1(i):
    if isinstance(i, np.ndarray) and isO(i):
        if i.size == 0:
            return np.asarray(i).astype(int)
        e = i.flat[0]
        if isinstance(e, (bool, np.bool_, SBool)):
            out = np.zeros(i.shape, dtype=bool)
            f = out.reshape(-1)
            for n, e in enumerate(np.asarray(i).flat):
                f[n] = bool(e)
            return f.reshape(i.shape)
        out = np.zeros(i.shape, dtype=int)
        f = out.reshape(-1)
        for n, e in enumerate(np.asarray(i).flat):
            f[n] = e.__index__() if isinstance(e, Sym) else int(e)
        return f.reshape(i.shape)
    if isinstance(i, Sym):
        return i.__index__()
    if isinstance(i, slice):
        return slice(*[x.__index__() if isinstance(x, Sym) else x for x in (i.start, i.stop, i.step)])
    if isinstance(i, list) and has_sym(i):
        return [e.__index__() if isinstance(e, Sym) else e for e in i]
    return i


def wrap(a):
    if isinstance(a, np.ndarray):
        if isO(a):
            return a.view(SymArray)
        return a
    return a


def arr(v):
    """-> object SymArray"""
    if isinstance(v, SymArray):
        return v
    if isinstance(v, np.ndarray):
        return v.astype(object).view(SymArray)
    return np.array(v, dtype=object).view(SymArray)


def _emap(f, a):
    if not isinstance(a, np.ndarray):
        return f(a)
    if a.ndim == 0:
        return f(a.item())
    out = np.empty(a.shape, dtype=object)
    o = out.reshape(-1)
    isb = True
    for i, e in enumerate(np.asarray(a).flat):
        v = f(e)
        o[i] = v
        isb = isb and isinstance(v, (bool, np.bool_))
    out = o.reshape(a.shape)
    if isb and out.size and not BOOL_OBJ[0]:
        return out.astype(bool)
    return out.view(SymArray)


def _emap2(f, a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        return f(a.item(), b.item())
    o = out.reshape(-1)
    isb = True
    for i, (x, y) in enumerate(zip(a.flat, b.flat)):
        v = f(x, y)
        o[i] = v
        isb = isb and isinstance(v, (bool, np.bool_))
    out = o.reshape(a.shape)
    if isb and out.size and not BOOL_OBJ[0]:
        return out.astype(bool)
    return out.view(SymArray)


def _num(f, g):
    def h(v):
        if isinstance(v, (Sym, SBool)):
            return f(lift(v))
        return g(v)
    return h


def _mfloor(v):
    return math.floor(v) if not core.is_special(v) else v


def _quiet(fn):
    def g(v):
        with np.errstate(all='ignore'):
            r = fn(float(v))
            return float(r)
    return g


def _isfin(v):
    if isinstance(v, (Sym, SBool)):
        return True
    return bool(np.isfinite(float(v)))


def _sign(v):
    if isinstance(v, Sym):
        if v > 0:
            return 1.0
        return -1.0 if v < 0 else 0.0
    return float(np.sign(v))


def _unsup(name):
    def f(v):
        raise Unsupported('%s of a symbolic value' % name)
    return f


def s_log1p(v):
    return core.s_log(v + 1)


_UNARY = {
    'exp': _num(core.s_exp, _quiet(np.exp)),
    'log': _num(core.s_log, _quiet(np.log)),
    'sqrt': _num(core.s_sqrt, _quiet(np.sqrt)),
    'log1p': _num(s_log1p, _quiet(np.log1p)),
    'expm1': _num(lambda v: core.s_exp(v) - 1, _quiet(np.expm1)),
    'log10': _num(lambda v: core.s_log(v) / core.LOG10, _quiet(np.log10)),
    'log2': _num(lambda v: core.s_log(v) / core.LOG2, _quiet(np.log2)),
    'floor': _num(core.s_floor, _mfloor),
    'ceil': _num(lambda v: -lift(core.s_floor(-v)), lambda v: math.ceil(v) if not core.is_special(v) else v),
    'rint': _num(core.s_rint, lambda v: float(np.rint(v))),
    'trunc': _num(core.s_trunc, lambda v: float(np.trunc(v))),
    'isnan': lambda v: False if is_symobj(v) else bool(np.isnan(float(v))),
    'isinf': lambda v: False if is_symobj(v) else bool(np.isinf(float(v))),
    'isfinite': _isfin,
    'sign': _sign,
    'square': lambda v: v * v,
    'absolute': lambda v: abs(v),
    'negative': lambda v: -v,
    'reciprocal': lambda v: 1 / v,
    'sin': _num(_unsup('sin'), _quiet(np.sin)),
    'cos': _num(_unsup('cos'), _quiet(np.cos)),
    'tanh': _num(lambda v: (core.s_exp(2 * v) - 1) / (core.s_exp(2 * v) + 1), _quiet(np.tanh)),
    'logical_not': lambda v: (not bool(v)) if not isinstance(v, SBool) else ~v,
    'invert': lambda v: ~v if not isinstance(v, bool) else not v,
    'conjugate': lambda v: v,
}


def _fdiv(a, b):
    """true divide with IEEE semantics on concrete values"""
    if isinstance(a, (Sym, SBool)) or isinstance(b, (Sym, SBool)):
        return lift(a) / b if isinstance(a, SBool) else a / b
    if isinstance(a, Fraction) or isinstance(b, Fraction):
        if b != 0:
            return a / b
        a = float(a)
    with np.errstate(all='ignore'):
        return float(np.float64(a) / np.float64(b))


def _max2(a, b):
    if isinstance(a, float) and a != a:
        return a
    if isinstance(b, float) and b != b:
        return b
    return a if bool(a >= b) else b


def _min2(a, b):
    if isinstance(a, float) and a != a:
        return a
    if isinstance(b, float) and b != b:
        return b
    return a if bool(a <= b) else b


def _pow(a, b):
    if isinstance(a, (Sym, SBool)) or isinstance(b, (Sym, SBool)):
        return a ** b
    return float(np.float64(a) ** np.float64(b)) if not (isinstance(a, int) and isinstance(b, int) and b >= 0) else a ** b


def _tb(a):
    return a if isinstance(a, SBool) else bool(a)


def _sb(a):
    return a if isinstance(a, SBool) else SBool(core.as_z(bool(a)))


_BINARY = {
    'true_divide': _fdiv, 'divide': _fdiv,
    'maximum': _max2, 'minimum': _min2, 'fmax': _max2, 'fmin': _min2,
    'power': _pow,
    'logical_and': lambda a, b: core.s_and(_tb(a), _tb(b)),
    'logical_or': lambda a, b: core.s_or(_tb(a), _tb(b)),
    'logical_xor': lambda a, b: (_sb(a) ^ _sb(b)) if isinstance(a, SBool) or isinstance(b, SBool) else bool(a) != bool(b),
    'logaddexp': lambda a, b: core.s_log(core.s_exp(lift(a)) + core.s_exp(lift(b))),
    'hypot': lambda a, b: core.s_sqrt(lift(a * a + b * b)),
    'bitwise_and': lambda a, b: core.s_and(_tb(a), _tb(b)) if isinstance(a, (bool, np.bool_, SBool)) else a & b,
    'bitwise_or': lambda a, b: core.s_or(_tb(a), _tb(b)) if isinstance(a, (bool, np.bool_, SBool)) else a | b,
}


# --------------------------------------------------------------- int / float
class _MI(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], (Sym, SBool)):
            return core.s_trunc(lift(a[0]))
        if len(a) == 1 and isinstance(a[0], np.ndarray) and isO(a[0]) and a[0].size == 1:
            return cls(a[0].reshape(-1)[0])
        r = builtins.int(*a, **k)
        return core.untoken(r) if core.TOKENS[0] else r

    def __instancecheck__(cls, v):
        if isinstance(v, Sym):
            return v.is_int
        return builtins.isinstance(v, builtins.int)

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)


class SInt_(builtins.int, metaclass=_MI):
    dtype = np.dtype(int)


class _MF(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], (Sym, SBool)):
            return lift(a[0])
        if len(a) == 1 and isinstance(a[0], np.ndarray) and isO(a[0]) and a[0].size == 1:
            return cls(a[0].reshape(-1)[0])
        r = builtins.float(*a, **k)
        return core.untoken(r) if core.TOKENS[0] else r

    def __instancecheck__(cls, v):
        if isinstance(v, Sym):
            return not v.is_int
        return builtins.isinstance(v, builtins.float)


class SFloat(builtins.float, metaclass=_MF):
    dtype = np.dtype(float)


class _MS(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and isinstance(a[0], Atom):
            return a[0]
        return builtins.str(*a, **k)

    def __instancecheck__(cls, v):
        return builtins.isinstance(v, (builtins.str, Atom))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.str)

    def __getattr__(cls, k):
        return getattr(builtins.str, k)


class SStr(builtins.str, metaclass=_MS):
    dtype = np.dtype(str)


def _real_dtype(d):
    if d is SStr:
        return str
    if d is SInt_:
        return int
    if d is SFloat:
        return float
    return d


# --------------------------------------------------------------- facade
class _Facade(types.ModuleType):
    def __init__(self, real, name):
        super().__init__(name)
        self.__dict__['_real'] = real

    def __getattr__(self, k):
        r = getattr(self.__dict__['_real'], k)
        return r


S = _Facade(np, 'numpy')
LA = _Facade(_sla, 'scipy.linalg')
M = _Facade(math, 'math')


def _reg(f):
    setattr(S, f.__name__, f)
    return f


def _shape(s):
    if isinstance(s, Sym):
        return s.__index__()
    if isinstance(s, (tuple, list)):
        return tuple(e.__index__() if isinstance(e, Sym) else int(e) for e in s)
    return s


INT_OBJ = [False]      # integer work arrays may hold symbolic integers
BOOL_OBJ = [False]     # boolean work arrays may hold symbolic booleans


def _create(fill):
    def f(shape, dtype=float, order='C', **k):
        shape = _shape(shape)
        kd = kind_of(dtype)
        if kd in ('f', 'c'):
            a = np.empty(shape, dtype=object)
            a.fill(float(fill))
            return a.view(SymArray)
        if kd == 'O':
            a = np.empty(shape, dtype=object)
            if fill == 1:
                a.fill(1)
            elif fill == 0:
                a.fill(0)
            return a.view(SymArray)
        if kd == 'b' and BOOL_OBJ[0]:
            a = np.empty(shape, dtype=object)
            a.fill(bool(fill))
            return a.view(SymArray)
        if INT_OBJ[0] and kd in ('i', 'u'):
            a = np.empty(shape, dtype=object)
            a.fill(fill)
            a = a.view(SymArray)
            a._dt = np.dtype(_real_dtype(dtype))
            return a
        if fill == 0:
            return np.zeros(shape, dtype=_real_dtype(dtype))
        return np.ones(shape, dtype=_real_dtype(dtype))
    return f


S.zeros = _create(0)
S.ones = _create(1)
S.empty = _create(0)


def _like(fill):
    def f(a, dtype=None, order='K', subok=True, shape=None, **k):
        if shape is None:
            shape = np.shape(a)
        if dtype is None:
            dtype = a.dtype if isinstance(a, np.ndarray) else (float if has_sym(a) else np.asarray(a).dtype)
        return _create(fill)(shape, dtype)
    return f


S.zeros_like = _like(0)
S.ones_like = _like(1)
S.empty_like = _like(0)


@_reg
def full(shape, fill_value, dtype=None, order='C'):
    if has_sym(fill_value) or kind_of(dtype) == 'f' or (dtype is None and isinstance(fill_value, float)):
        a = np.empty(_shape(shape), dtype=object)
        a[...] = fill_value
        return a.view(SymArray)
    return np.full(_shape(shape), fill_value, dtype=_real_dtype(dtype))


@_reg
def full_like(a, fill_value, dtype=None, **k):
    return full(np.shape(a), fill_value, dtype if dtype is not None else getattr(a, 'dtype', None))


@_reg
def eye(N, M=None, k=0, dtype=float, **kw):
    r = np.eye(_shape(N), M if M is None else _shape(M), k)
    return arr(r) if kind_of(dtype) == 'f' else r.astype(_real_dtype(dtype))


@_reg
def identity(n, dtype=None):
    return eye(n)


ROUND32 = [False]      # single precision casts lose digits


def narrow(a, dtype):
    """casts to less than double precision move the value (far more than they do: the replay on the real code decides)"""
    if ROUND32[0] and isinstance(a, np.ndarray) and isO(a) and dtype is not None and kind_of(dtype) == 'f' and np.dtype(_real_dtype(dtype)).itemsize < 8:
        out = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            v = np.ndarray.__getitem__(a, ix)
            out[ix] = v * Fraction(33, 32) if isinstance(v, Sym) and not v.is_const() else v
        return out.view(SymArray)
    return a


def _toarr(v, dtype, copy):
    return narrow(_toarr1(v, dtype, copy), dtype)


def _toarr1(v, dtype, copy):
    if isinstance(v, np.ndarray):
        if isO(v):
            if dtype is None:
                r = v.view(SymArray)
                return r.copy() if copy else r
            k = kind_of(dtype)
            if k in ('f', 'c', 'O') or (k in 'US' and has_sym(v)):
                r = v.view(SymArray)
                return r.copy() if copy else r
            return v.view(SymArray).astype(dtype)
        if kind_of(dtype) == 'f' and v.dtype.kind in 'fiub':
            return arr(v)      # becomes a float work array
        return np.array(v, dtype=_real_dtype(dtype)) if copy else np.asarray(v, dtype=_real_dtype(dtype))
    if isinstance(v, (Sym, SBool, Atom)):
        a = np.empty((), dtype=object)
        a[()] = v
        return a.view(SymArray)
    if isinstance(v, (list, tuple)) and _deep_sym(v):
        a = np.array(v, dtype=object).view(SymArray)
        return a if dtype is None else a.astype(dtype)
    if getattr(v, 'dtype', None) == object and not isinstance(v, np.ndarray):     # pandas columns
        a = np.array(v, dtype=object)
        if has_sym(a):
            return _toarr(a, dtype, copy)
    if dtype is not None and kind_of(dtype) == 'f':
        try:
            return arr(np.array(v, dtype=_real_dtype(dtype)))
        except (TypeError, ValueError):
            raise
    r = np.array(v, dtype=_real_dtype(dtype))
    return r


def _deep_sym(v):
    for e in v:
        if is_symobj(e):
            return True
        if isinstance(e, (list, tuple)) and _deep_sym(e):
            return True
        if isinstance(e, np.ndarray) and isO(e):
            return True
    return False


@_reg
def array(v, dtype=None, copy=True, order='K', subok=False, ndmin=0):
    r = _toarr(v, dtype, copy)
    while r.ndim < ndmin:
        r = r[None]
    return r


@_reg
def asarray(v, dtype=None, order=None, **k):
    return _toarr(v, dtype, False)


@_reg
def asanyarray(v, dtype=None, **k):
    return _toarr(v, dtype, False)


@_reg
def ascontiguousarray(v, dtype=None, **k):
    return _toarr(v, dtype, False)


@_reg
def atleast_1d(a):
    a = asarray(a)
    return a.reshape(1) if a.ndim == 0 else a


@_reg
def atleast_2d(a):
    a = asarray(a)
    if a.ndim == 0:
        return a.reshape(1, 1)
    return a[None] if a.ndim == 1 else a


def _mk1(name, ufn):
    def f(a, out=None, **k):
        if isinstance(a, (Sym, SBool)):
            return _UNARY[name](a)
        if isinstance(a, (list, tuple)) and has_sym(a):
            a = arr(a)
        if isinstance(a, np.ndarray) and isO(a):
            r = _emap(_UNARY[name], a)
            if out is not None:
                out[...] = r
                return out
            return r
        if isinstance(a, Fraction):
            a = float(a)
        r = ufn(a, out) if out is not None else ufn(a)
        return r
    f.__name__ = name
    return f


for _n in list(_UNARY):
    setattr(S, _n, _mk1(_n, getattr(np, _n)))
S.abs = S.absolute
S.conj = S.conjugate


def _mk2(name, ufn):
    def f(a, b, out=None, **k):
        if has_sym(a) or has_sym(b) or (isinstance(a, np.ndarray) and isO(a)) or \
                (isinstance(b, np.ndarray) and isO(b)):
            r = _emap2(_BINARY[name], a, b)
            if out is not None:
                out[...] = r
                return out
            return r
        return ufn(a, b, out) if out is not None else ufn(a, b)
    f.__name__ = name
    # keep ufunc methods (np.maximum.accumulate ...)
    return f


class _UF(object):
    def __init__(self, name, ufn):
        self._f = _mk2(name, ufn)
        self._u = ufn
        self._n = name

    def __call__(self, *a, **k):
        return self._f(*a, **k)

    def _red(self, a, axis):
        a = np.asarray(a)
        f = _BINARY[self._n]
        if axis is None:
            a = a.reshape(-1)
            axis = 0
        a = np.moveaxis(a, axis, 0)
        acc = a[0]
        for i in range(1, a.shape[0]):
            acc = _emap2(f, acc, a[i]) if a.ndim > 1 else f(acc, a[i])
        return acc

    def reduce(self, a, axis=0, **k):
        if has_sym(a):
            return self._red(a, axis)
        return self._u.reduce(a, axis=axis, **k)

    def accumulate(self, a, axis=0, **k):
        if has_sym(a):
            a = np.asarray(a)
            f = _BINARY[self._n]
            a = np.moveaxis(a, axis, 0)
            acc = [a[0]]
            for i in range(1, a.shape[0]):
                acc.append(_emap2(f, acc[-1], a[i]) if a.ndim > 1 else f(acc[-1], a[i]))
            return np.moveaxis(np.array(acc, dtype=object), 0, axis).view(SymArray)
        return self._u.accumulate(a, axis=axis, **k)

    def outer(self, a, b):
        if has_sym(a) or has_sym(b):
            a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
            return _emap2(_BINARY[self._n], a.reshape(a.shape + (1,) * b.ndim), b)
        return self._u.outer(a, b)

    def __getattr__(self, k):
        return getattr(self._u, k)


for _n in _BINARY:
    setattr(S, _n, _UF(_n, getattr(np, _n)))


def _obj(a):
    return (isinstance(a, np.ndarray) and isO(a)) or has_sym(a)


@_reg
def sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if _obj(a):
        a = np.asarray(a, dtype=object)
        a = _emap(lambda e: lift(e) if isinstance(e, SBool) else (int(e) if isinstance(e, (bool, np.bool_)) else e), a)
        r = np.sum(np.asarray(a), axis=axis, keepdims=keepdims)
        return wrap(r)
    return np.sum(a, axis=axis, dtype=_real_dtype(dtype), keepdims=keepdims, **k)


def _count(a, axis):
    if axis is None:
        return a.size
    if isinstance(axis, tuple):
        n = 1
        for x in axis:
            n *= a.shape[x]
        return n
    return a.shape[axis]


@_reg
def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if _obj(a):
        a = np.asarray(a, dtype=object)
        s = sum(a, axis=axis, keepdims=keepdims)
        n = _count(a, axis)
        if n == 0:
            return s * float('nan')
        r = _emap(lambda e: e / n if not isinstance(e, (float, int)) else float(e) / n, s)
        return wrap(r)
    return np.mean(a, axis=axis, keepdims=keepdims)


@_reg
def average(a, axis=None, weights=None, returned=False, **k):
    if _obj(a) or has_sym(weights):
        if weights is None:
            return mean(a, axis)
        a, w = arr(a), arr(weights)
        if w.ndim < a.ndim and axis is not None:
            shp = [1] * a.ndim
            shp[axis] = w.shape[0]
            w = w.reshape(shp)
            w = arr(np.broadcast_to(np.asarray(w), a.shape))
        return sum(a * w, axis=axis) / sum(w, axis=axis)
    return np.average(a, axis=axis, weights=weights)


@_reg
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    if _obj(a):
        a = arr(a)
        m = mean(a, axis=axis, keepdims=True)
        d = a - m
        n = _count(a, axis) - ddof
        s = sum(d * d, axis=axis, keepdims=keepdims)
        return wrap(_emap(lambda e: e / n, s))
    return np.var(a, axis=axis, ddof=ddof, keepdims=keepdims)


@_reg
def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    if _obj(a):
        return S.sqrt(var(a, axis=axis, ddof=ddof, keepdims=keepdims))
    return np.std(a, axis=axis, ddof=ddof, keepdims=keepdims)


def _cmpsel(op):
    def f(a, axis=None, out=None, keepdims=False, **k):
        if _obj(a):
            return wrap(op(np.asarray(a, dtype=object), axis=axis, keepdims=keepdims))
        return op(a, axis=axis, keepdims=keepdims)
    return f


S.max = S.amax = _cmpsel(np.max)
S.min = S.amin = _cmpsel(np.min)


@_reg
def all(a, axis=None, **k):
    if _obj(a) and axis is None:
        return bool(core.s_and(*[_tb(e) for e in np.asarray(a, dtype=object).flat]))
    if _obj(a):
        a = _emap(lambda e: bool(e), np.asarray(a, dtype=object))
        if isinstance(a, np.ndarray):
            a = np.asarray(a).astype(bool)
    return np.all(a, axis=axis)


@_reg
def any(a, axis=None, **k):
    if _obj(a) and axis is None:
        return bool(core.s_or(*[_tb(e) for e in np.asarray(a, dtype=object).flat]))
    if _obj(a):
        a = _emap(lambda e: bool(e), np.asarray(a, dtype=object))
        if isinstance(a, np.ndarray):
            a = np.asarray(a).astype(bool)
    return np.any(a, axis=axis)


@_reg
def dot(a, b, out=None):
    if _obj(a) or _obj(b):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        return wrap(np.dot(a, b))
    return np.dot(a, b)


@_reg
def matmul(a, b):
    if _obj(a) or _obj(b):
        return wrap(np.matmul(np.asarray(a, dtype=object), np.asarray(b, dtype=object)))
    return np.matmul(a, b)


@_reg
def inner(a, b):
    if _obj(a) or _obj(b):
        return wrap(np.inner(np.asarray(a, dtype=object), np.asarray(b, dtype=object)))
    return np.inner(a, b)


@_reg
def outer(a, b):
    if _obj(a) or _obj(b):
        return wrap(np.outer(np.asarray(a, dtype=object), np.asarray(b, dtype=object)))
    return np.outer(a, b)


@_reg
def einsum(spec, *ops, **k):
    if builtins.any(_obj(o) for o in ops):
        spec = spec.replace(' ', '')
        if '->' in spec:
            lhs, rhs = spec.split('->')
        else:
            lhs = spec
            letters = sorted(set(lhs.replace(',', '')))
            rhs = ''.join(c for c in letters if lhs.count(c) == 1)
        terms = lhs.split(',')
        dims = {}
        arrs = [np.asarray(o, dtype=object) for o in ops]
        for t, o in zip(terms, arrs):
            for c, n in zip(t, o.shape):
                dims[c] = n
        import itertools
        sumc = [c for c in dims if c not in rhs]
        out = np.empty(tuple(dims[c] for c in rhs), dtype=object)
        for ix in itertools.product(*[range(dims[c]) for c in rhs]):
            env = dict(zip(rhs, ix))
            acc = 0
            for sx in itertools.product(*[range(dims[c]) for c in sumc]):
                env.update(zip(sumc, sx))
                p = 1
                for t, o in zip(terms, arrs):
                    p = p * o[tuple(env[c] for c in t)]
                acc = acc + p
            out[ix] = acc
        return out.view(SymArray) if rhs else out[()]
    return np.einsum(spec, *ops, **k)


@_reg
def searchsorted(a, v, side='left', sorter=None):
    if _obj(a) or _obj(v):
        a = np.asarray(a, dtype=object)
        if sorter is not None:
            a = a[sorter]

        def one(x):
            lo, hi = 0, len(a)
            while lo < hi:
                m = (lo + hi) // 2
                if (bool(a[m] < x) if side == 'left' else bool(a[m] <= x)):
                    lo = m + 1
                else:
                    hi = m
            return lo
        if isinstance(v, np.ndarray) and v.ndim > 0 or isinstance(v, (list, tuple)):
            vv = np.asarray(v, dtype=object)
            return np.array([one(x) for x in vv.flat], dtype=int).reshape(vv.shape)
        return one(v)
    return np.searchsorted(a, v, side=side, sorter=sorter)


@_reg
def round(a, decimals=0, out=None):
    if _obj(a):
        if decimals:
            raise Unsupported('round decimals')
        return S.rint(a)
    return np.round(a, decimals)


S.around = S.round_ = round


@_reg
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if _obj(a) or _obj(b):
        return _emap2(lambda x, y: bool(abs(x - y) <= atol + rtol * abs(y)), a, b)
    return np.isclose(a, b, rtol, atol)


@_reg
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(np.all(np.asarray(isclose(a, b, rtol, atol)).astype(bool)))


@_reg
def array_equal(a, b, **k):
    if _obj(a) or _obj(b):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        return builtins.all(bool(x == y) for x, y in zip(a.flat, b.flat))
    return np.array_equal(a, b)


@_reg
def arange(*a, dtype=None):
    if has_sym(a):
        v = list(a)
        if builtins.all((not isinstance(x, Sym)) or x.is_int for x in v) and \
                builtins.all(isinstance(x, (int, np.integer, Sym)) for x in v):
            v = [x.__index__() if isinstance(x, Sym) else x for x in v]
            return np.arange(*v, dtype=_real_dtype(dtype))
        start, stop, step = (0, v[0], 1) if len(v) == 1 else (v[0], v[1], v[2] if len(v) > 2 else 1)
        n = core.s_floor(-((start - lift(stop)) / step))
        n = -lift(core.s_floor(-(lift(stop) - start) / step))
        n = n.__index__() if isinstance(n, Sym) else int(n)
        return arr([start + i * step for i in range(max(n, 0))])
    r = np.arange(*a, dtype=_real_dtype(dtype))
    return r


def max(*a, **k):
    return builtins.max(*a, **k)


@_reg
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if has_sym((start, stop, num)):
        num = num.__index__() if isinstance(num, Sym) else num
        div = (num - 1) if endpoint else num
        step = (stop - start) / div if div else 0
        r = [start + step * i for i in range(num)]
        if endpoint and num > 1:
            r[-1] = stop
        r = arr(r)
        return r if dtype is None else r.astype(dtype)
    return np.linspace(start, stop, num, endpoint, retstep, _real_dtype(dtype))


@_reg
def median(a, axis=None, **k):
    if _obj(a):
        a = np.sort(np.asarray(a, dtype=object), axis=-1 if axis is None else axis)
        if axis is None:
            a = np.sort(a.reshape(-1))
            axis = 0
        n = a.shape[axis]
        lo = np.take(a, (n - 1) // 2, axis=axis)
        hi = np.take(a, n // 2, axis=axis)
        return wrap((lo + hi) / 2) if isinstance(lo, np.ndarray) else (lo + hi) / 2
    return np.median(a, axis=axis)


@_reg
def cumsum(a, axis=None, dtype=None, out=None):
    if _obj(a):
        r = wrap(np.cumsum(np.asarray(a, dtype=object), axis=axis))
        if out is not None:
            out[...] = r
            return out
        return r
    return np.cumsum(a, axis=axis, out=out)


@_reg
def trapz(y, x=None, dx=1.0, axis=-1):
    if _obj(y) or _obj(x):
        y = arr(y)
        x = arr(x)
        return builtins.sum(((x[i + 1] - x[i]) * (y[i + 1] + y[i]) / 2 for i in range(len(y) - 1)), 0)
    return np.trapz(y, x, dx, axis)


@_reg
def clip(a, lo, hi, out=None, **k):
    if _obj(a) or has_sym(lo) or has_sym(hi):
        r = a
        if lo is not None:
            r = S.maximum(r, lo)
        if hi is not None:
            r = S.minimum(r, hi)
        if out is not None:
            out[...] = r
            return out
        return r
    return np.clip(a, lo, hi, out=out)


@_reg
def where(c, *ab):
    if isinstance(c, SBool):
        c = bool(c)
    if _obj(c):
        c = np.asarray(_emap(lambda e: bool(e), np.asarray(c, dtype=object))).astype(bool)
    if ab:
        a, b = ab
        if has_sym(a) or has_sym(b):
            a = np.asarray(a, dtype=object) if not isinstance(a, Sym) else _toarr(a, None, False)
            b = np.asarray(b, dtype=object) if not isinstance(b, Sym) else _toarr(b, None, False)
            return wrap(np.where(c, np.asarray(a), np.asarray(b)))
    return np.where(c, *ab)


@_reg
def diag(v, k=0):
    if _obj(v):
        v = np.asarray(v, dtype=object)
        if v.ndim == 1:
            n = len(v)
            out = np.empty((n, n), dtype=object)
            out.fill(0.0)
            for i in range(n):
                out[i, i] = v[i]
            return out.view(SymArray)
        return wrap(np.diag(v, k).copy())
    return np.diag(v, k)


@_reg
def tril(a, k=0):
    if _obj(a):
        a = np.asarray(a, dtype=object).copy()
        m = np.tri(a.shape[-2], a.shape[-1], k, dtype=bool)
        a[..., ~m] = 0.0
        return a.view(SymArray)
    return np.tril(a, k)


@_reg
def triu(a, k=0):
    if _obj(a):
        a = np.asarray(a, dtype=object).copy()
        m = np.tri(a.shape[-2], a.shape[-1], k - 1, dtype=bool)
        a[..., m] = 0.0
        return a.view(SymArray)
    return np.triu(a, k)


@_reg
def copy(a, **k):
    return wrap(np.array(a, copy=True)) if not isinstance(a, SymArray) else a.copy()


@_reg
def nonzero(a):
    if _obj(a):
        a = np.asarray(_emap(lambda e: bool(e), np.asarray(a, dtype=object))).astype(bool)
    return np.nonzero(a)


@_reg
def in1d(a, b, assume_unique=False, invert=False):
    if _obj(a) or _obj(b):
        a, b = np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1)
        r = np.array([builtins.any(bool(x == y) for y in b) for x in a], dtype=bool)
        return ~r if invert else r
    return np.in1d(a, b, assume_unique, invert)


@_reg
def isin(a, b, assume_unique=False, invert=False):
    if _obj(a) or _obj(b):
        return in1d(a, b, invert=invert).reshape(np.shape(a))
    return np.isin(a, b, assume_unique, invert)


@_reg
def bincount(x, weights=None, minlength=0):
    if _obj(x):
        x = np.asarray(fix_index1(np.asarray(x)))
    if weights is not None and _obj(weights):
        n = builtins.max(int(x.max()) + 1 if len(x) else 0, minlength)
        out = [0] * n
        for i, w in zip(x, np.asarray(weights)):
            out[i] = out[i] + w
        return arr(out)
    return np.bincount(x, weights, minlength)


@_reg
def interp(x, xp, fp, left=None, right=None, period=None):
    if _obj(x) or _obj(xp) or _obj(fp):
        xp_, fp_ = np.asarray(xp, dtype=object), np.asarray(fp, dtype=object)

        def one(v):
            if bool(v <= xp_[0]):
                return fp_[0]
            for i in range(1, len(xp_)):
                if bool(v <= xp_[i]):
                    return fp_[i - 1] + (fp_[i] - fp_[i - 1]) * (v - xp_[i - 1]) / (xp_[i] - xp_[i - 1])
            return fp_[-1]
        if isinstance(x, np.ndarray):
            return _emap(one, x)
        return one(x)
    return np.interp(x, xp, fp, left, right, period)


@_reg
def percentile(a, q, axis=None, **k):
    if _obj(a):
        if axis not in (None, 0):
            raise Unsupported('percentile axis')
        s = np.sort(np.asarray(a, dtype=object).reshape(-1)) if axis is None else np.sort(np.asarray(a, dtype=object), axis=0)

        def one(p):
            pos = Fraction(repr(float(p))) / 100 * (len(s) - 1)
            i = int(pos)
            f = pos - i
            return s[i] if f == 0 else s[i] * (1 - f) + s[i + 1] * f
        if np.ndim(q):
            return arr([one(p) for p in q])
        return one(q)
    return np.percentile(a, q, axis=axis, **k)


def _strip(name):
    """numpy functions that work on plain object arrays (pure rearrangement / comparison)"""
    fn = getattr(np, name)

    def conv(x):
        if isinstance(x, SymArray):
            return np.asarray(x)
        if isinstance(x, (list, tuple)):
            return type(x)(conv(e) for e in x)
        return x

    def f(*a, **k):
        for key in ('dtype',):
            if key in k:
                k[key] = _real_dtype(k[key])
        r = fn(*[conv(x) for x in a], **{kk: conv(v) for kk, v in k.items()})
        if isinstance(r, tuple):
            r = tuple(wrap(e) for e in r)
        elif isinstance(r, list):
            r = [wrap(e) for e in r]
        else:
            r = wrap(r)
        ins = []
        for x in a:
            ins += list(x) if isinstance(x, (list, tuple)) else [x]
        ins = [x for x in ins if isinstance(x, np.ndarray)]
        if builtins.any(getattr(x, '_dt', None) is not None for x in ins):
            try:
                dt = np.result_type(*[x.dtype for x in ins])
                for e in (r if isinstance(r, (tuple, list)) else [r]):
                    if isinstance(e, SymArray) and isO(e):
                        e._dt = dt
            except (TypeError, ValueError):
                pass
        return r
    f.__name__ = name
    return f


for _n in ('hstack', 'vstack', 'concatenate', 'stack', 'dstack', 'column_stack', 'split', 'array_split',
           'vsplit', 'hsplit',
           'sort', 'argsort', 'argmax', 'argmin', 'unique', 'repeat', 'tile', 'flipud', 'fliplr', 'flip',
           'transpose', 'reshape', 'ravel', 'squeeze', 'expand_dims', 'take', 'delete', 'insert', 'append',
           'roll', 'swapaxes', 'moveaxis', 'broadcast_to', 'pad', 'diff', 'setdiff1d', 'intersect1d',
           'union1d', 'cumprod', 'prod', 'add', 'subtract', 'multiply', 'equal', 'not_equal', 'less',
           'less_equal', 'greater', 'greater_equal', 'convolve', 'correlate', 'meshgrid', 'kron', 'trace',
           'count_nonzero', 'flatnonzero', 'argwhere', 'rollaxis', 'rot90', 'choose', 'compress', 'extract',
           'lexsort', 'ptp', 'tensordot', 'vdot', 'mod', 'floor_divide', 'remainder', 'fill_diagonal',
           'array_repr', 'partition', 'argpartition', 'broadcast_arrays'):
    if _n in ('add', 'subtract', 'multiply', 'fill_diagonal', 'partition', 'argpartition'):
        continue
    setattr(S, _n, _strip(_n))


@_reg
def ix_(*args):
    return np.ix_(*[fix_index1(np.asarray(a)) if isinstance(a, np.ndarray) else a for a in args])


@_reg
def iscomplexobj(a):
    return False if _obj(a) else np.iscomplexobj(a)


@_reg
def savetxt(fname, X, *a, **k):
    X = np.asarray(X)
    if X.dtype == object:
        if has_sym(X):
            raise Unsupported('savetxt')
        X = X.astype(float)
    return np.savetxt(fname, X, *a, **k)


# --------------------------------------------------------------- linear algebra
def _nrows(a):
    a = np.asarray(a, dtype=object)
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('square matrix expected')
    return a, a.shape[0]


class NotPD(np.linalg.LinAlgError):
    pass


def chol_upper(a):
    """textbook Cholesky, upper factor U with U^T U = a (reads the upper triangle)"""
    a, n = _nrows(a)
    U = np.empty((n, n), dtype=object)
    U.fill(0.0)
    for j in range(n):
        for i in range(j + 1):
            s = a[i, j]
            for k in range(i):
                s = s - U[k, i] * U[k, j]
            if i == j:
                if not bool(s > 0):
                    raise np.linalg.LinAlgError('matrix not positive definite')
                U[i, i] = core.s_sqrt(lift(s))
            else:
                U[i, j] = s / U[i, i]
    return U


def la_cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    if not _obj(a):
        return _sla.cholesky(a, lower=lower)
    a = np.asarray(a, dtype=object)
    if lower:
        a = a.T       # scipy reads the lower triangle
    U = chol_upper(a)
    return wrap(U.T.copy() if lower else U)


def _solve_tri(a, b, lower, trans, unit=False):
    a, n = _nrows(a)
    if trans in (1, 'T', 2, 'C'):
        a = a.T
        lower = not lower
    b = np.asarray(b, dtype=object)
    vec = b.ndim == 1
    x = (b[:, None] if vec else b).copy()
    rng = range(n) if lower else range(n - 1, -1, -1)
    for i in rng:
        for c in range(x.shape[1]):
            s = x[i, c]
            for k in (range(i) if lower else range(i + 1, n)):
                s = s - a[i, k] * x[k, c]
            x[i, c] = s if unit else _fdiv(s, a[i, i])
    return wrap(x[:, 0] if vec else x)


def la_solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False,
                        check_finite=True, **k):
    if not (_obj(a) or _obj(b)):
        return _sla.solve_triangular(a, b, trans=trans, lower=lower, unit_diagonal=unit_diagonal)
    return _solve_tri(a, b, lower, trans, unit_diagonal)


def la_cho_solve(c_and_lower, b, overwrite_b=False, check_finite=True):
    c, lower = c_and_lower
    if not (_obj(c) or _obj(b)):
        return _sla.cho_solve(c_and_lower, b)
    if lower:
        y = _solve_tri(c, b, True, 0)
        return _solve_tri(c, y, True, 1)
    y = _solve_tri(c, b, False, 1)
    return _solve_tri(c, y, False, 0)


def la_cho_factor(a, lower=False, overwrite_a=False, check_finite=True):
    if not _obj(a):
        return _sla.cho_factor(a, lower=lower)
    return la_cholesky(a, lower), lower


def det_poly(a):
    a, n = _nrows(a)
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    t = 0
    for j in range(n):
        m = np.delete(np.delete(a, 0, 0), j, 1)
        t = t + ((-1) ** j) * a[0, j] * det_poly(m)
    return t


def la_det(a, **k):
    if not _obj(a):
        return _sla.det(a)
    return det_poly(a)


def la_inv(a, **k):
    if not _obj(a):
        return _sla.inv(a)
    a, n = _nrows(a)
    d = det_poly(a)
    if isinstance(d, Sym):
        if bool(d == 0):
            raise np.linalg.LinAlgError('singular matrix')
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, j, 0), i, 1)
            c = det_poly(m) if n > 1 else 1
            out[i, j] = ((-1) ** (i + j)) * c / d
    return wrap(out)


def la_solve(a, b, **k):
    if not (_obj(a) or _obj(b)):
        return _sla.solve(a, b)
    return wrap(np.dot(np.asarray(la_inv(arr(a))), np.asarray(b, dtype=object)))


def la_norm(a, ord=None, axis=None, keepdims=False, **k):
    if not _obj(a):
        return np.linalg.norm(a, ord, axis, keepdims)
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm ord')
    return S.sqrt(sum(arr(a) * arr(a), axis=axis, keepdims=keepdims))


def la_slogdet(a):
    if not _obj(a):
        return np.linalg.slogdet(a)
    d = det_poly(a)
    if bool(d > 0):
        return 1.0, core.s_log(d)
    return -1.0, core.s_log(-d)


EIGH_HOOK = [None]
SVD_HOOK = [None]
EIGS = []       # known decompositions (A, B or None, V, w): A V = B V diag(w), V^T B V = I


def _ident0(x):
    """x is zero for every value of the inputs (canonical form)"""
    if not is_symobj(x):
        return x == 0
    return not x.n


def _same_mat(a, b):
    a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
    return a.shape == b.shape and builtins.all(_ident0(x - y) for x, y in zip(a.flat, b.flat))


def _known_eig(a, b=None):
    for A, B, V, w in EIGS:
        if (B is None) == (b is None) and _same_mat(a, A) and (b is None or _same_mat(b, B)):
            return np.asarray(V, dtype=object), list(w)
    return None


def _closed_eig(a):
    """diagonal and 2x2 symmetric matrices"""
    n = a.shape[0]
    if builtins.all(_ident0(a[i, j]) for i in range(n) for j in range(n) if i != j):
        V = np.empty((n, n), dtype=object)
        V.fill(0.0)
        for i in range(n):
            V[i, i] = 1.0
        return V, [a[i, i] for i in range(n)]
    if n != 2:
        raise Unsupported('eigenvalues of %d x %d matrix' % (n, n))
    p, q, r = a[0, 0], a[0, 1], a[1, 1]
    if bool(lift(q) == 0):
        return np.array([[1.0, 0.0], [0.0, 1.0]], dtype=object), [p, r]
    ds = core.s_sqrt(lift((p - r) * (p - r) + 4 * q * q))
    w = [(p + r - ds) / 2, (p + r + ds) / 2]
    V = np.empty((2, 2), dtype=object)
    for k in range(2):
        u0, u1 = q, w[k] - p
        nr = core.s_sqrt(lift(u0 * u0 + u1 * u1))
        V[0, k], V[1, k] = u0 / nr, u1 / nr
    return V, w


def _order(V, w, descending=False):
    ix = []
    for k in range(len(w)):
        j = 0
        while j < len(ix) and (bool(lift(w[ix[j]]) >= w[k]) if descending else bool(lift(w[ix[j]]) <= w[k])):
            j += 1
        ix.insert(j, k)
    W = np.empty(len(w), dtype=object)
    for i, k in enumerate(ix):
        W[i] = w[k]
    return V[:, ix], W


def la_eigh(a, b=None, lower=True, eigvals_only=False, eigvals=None, UPLO='L', **k):
    if EIGH_HOOK[0] is not None:
        return EIGH_HOOK[0](a, b)
    if not (has_sym(a) or has_sym(b)):
        if _obj(a) or _obj(b):
            a = np.asarray(a, dtype=float)
            b = None if b is None else np.asarray(b, dtype=float)
        return _sla.eigh(a, b)
    a, n = _nrows(a)
    # only one triangle is read
    t = np.tril(np.ones((n, n))) if lower else np.triu(np.ones((n, n)))
    a = np.where(t == 1, a, a.T)
    if b is not None:
        b = np.where(t == 1, np.asarray(b, dtype=object), np.asarray(b, dtype=object).T)
    e = _known_eig(a, b)
    if e is None and b is not None:
        # reduce to the ordinary problem
        U = chol_upper(b)
        iU = np.asarray(_solve_tri(U, np.eye(n).astype(object), False, 0), dtype=object)
        c = iU.T.dot(a).dot(iU)
        V, w = _known_eig(c) or _closed_eig(c)
        e = iU.dot(V), w
    elif e is None:
        e = _closed_eig(a)
    V, w = _order(*e)
    return wrap(w), wrap(V)


def _svd_general(a, full_matrices, compute_uv):
    """from the eigen-decomposition of A^T A"""
    r, c = a.shape
    if r < c or (full_matrices and compute_uv and r != c):
        raise Unsupported('svd of a wide matrix')
    g = a.T.dot(a)
    V, w = _known_eig(g) or _closed_eig(g)
    V, w = _order(np.array(V, dtype=object), list(w), descending=True)
    sv = [S.sqrt(x) for x in w]
    W = np.array(sv, dtype=object)
    if not compute_uv:
        return wrap(W)
    U = None
    if builtins.all(bool(lift(x) > 0) for x in sv):
        U = a.dot(V)
        for j in range(c):
            U[:, j] = U[:, j] / sv[j]
        U = wrap(U)
    return U, wrap(W), wrap(V.T.copy())


def la_svd(a, full_matrices=True, compute_uv=True, **k):
    if SVD_HOOK[0] is not None:
        return SVD_HOOK[0](a, full_matrices, compute_uv, **k)
    if not has_sym(a):
        return _sla.svd(np.asarray(a, dtype=float), full_matrices=full_matrices, compute_uv=compute_uv)
    a = np.asarray(a, dtype=object)
    if a.ndim == 2 and (a.shape[0] != a.shape[1] or not _same_mat(a, a.T)):
        return _svd_general(a, full_matrices, compute_uv)
    a, n = _nrows(a)
    V, w = _known_eig(a) or _closed_eig(a)
    sg = [-1.0 if bool(lift(x) < 0) else 1.0 for x in w]
    U = np.array(V, dtype=object)
    U, W = _order(U, [x * s for x, s in zip(w, sg)], descending=True)
    if not compute_uv:
        return wrap(W)
    # left and right vectors differ in the sign of the eigenvalue
    Vt = U.T.copy()
    for i in range(n):
        if builtins.any(s < 0 for s in sg) and not bool(lift(Vt[i].dot(a).dot(Vt[i])) >= 0):
            Vt[i] = -Vt[i]
    return wrap(U), wrap(W), wrap(Vt)


LA.cholesky = la_cholesky
LA.solve_triangular = la_solve_triangular
LA.cho_solve = la_cho_solve
LA.cho_factor = la_cho_factor
LA.det = la_det
LA.inv = la_inv
LA.solve = la_solve
LA.norm = la_norm
LA.eigh = la_eigh
LA.svd = la_svd

NLA = _Facade(np.linalg, 'symnp_linalg')
NLA.inv = la_inv
NLA.det = la_det
NLA.solve = la_solve
NLA.norm = la_norm
NLA.slogdet = la_slogdet
NLA.cholesky = lambda a: la_cholesky(a, lower=True)
NLA.eigh = la_eigh
NLA.svd = la_svd
S.linalg = NLA

RND = _Facade(np.random, 'symnp_random')
S.random = RND

FFT = _Facade(np.fft, 'symnp_fft')
S.fft = FFT


# --------------------------------------------------------------- math module
def _m1(name, f):
    real = getattr(math, name)

    def g(v, *a):
        if isinstance(v, (Sym, SBool)):
            return f(lift(v))
        return real(v, *a)
    setattr(M, name, g)


_m1('exp', core.s_exp)
_m1('log', core.s_log)
_m1('sqrt', core.s_sqrt)
_m1('floor', core.s_floor)
_m1('ceil', lambda v: -lift(core.s_floor(-v)))
_m1('fabs', abs)
_m1('trunc', core.s_trunc)
_m1('isnan', lambda v: False)
_m1('isinf', lambda v: False)


def s_cos(v):
    """uninterpreted cosine: value in [-1,1], exact at multiples of pi/2"""
    v = lift(v)
    r = v / core.to_fraction(math.pi)
    if r.is_const() and (2 * r.const()).denominator == 1:
        return [1, 0, -1, 0][int(2 * r.const()) % 4]
    g = core.REG.new(('fn', 'cos', v.key()), 'cos_%d' % len(core.REG.gens), False, 'fn', v)
    core.ENG.activate(g)
    c = Sym({((g.id, 1),): core.F1})
    core.ENG.add(core.as_z((c >= -1)))
    core.ENG.add(core.as_z((c <= 1)))
    return c


_m1('cos', s_cos)
_UNARY['cos'] = _num(s_cos, _quiet(np.cos))
S.cos = _mk1('cos', np.cos)


# ------------------------------------------------------- complex numbers
class SymComplex(object):
    """re + j im, with Sym or plain parts"""
    __slots__ = ('re', 'im')
    __array_priority__ = 30

    def __init__(self, re, im=0):
        self.re, self.im = re, im

    real = property(lambda self: self.re)
    imag = property(lambda self: self.im)

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    conj = conjugate

    @staticmethod
    def of(v):
        if isinstance(v, SymComplex):
            return v
        if isinstance(v, (complex, np.complexfloating)):
            return SymComplex(float(v.real), float(v.imag))
        if isinstance(v, np.ndarray):
            return None
        return SymComplex(v, 0)

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __add__(self, o):
        o = SymComplex.of(o)
        return NotImplemented if o is None else SymComplex(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = SymComplex.of(o)
        return NotImplemented if o is None else SymComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = SymComplex.of(o)
        return NotImplemented if o is None else o - self

    def __mul__(self, o):
        o = SymComplex.of(o)
        return NotImplemented if o is None else SymComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymComplex.of(o)
        if o is None:
            return NotImplemented
        if not is_symobj(o.im) and o.im == 0:
            return SymComplex(_fdiv(self.re, o.re), _fdiv(self.im, o.re))
        m = o.re * o.re + o.im * o.im
        return SymComplex(_fdiv(self.re * o.re + self.im * o.im, m), _fdiv(self.im * o.re - self.re * o.im, m))

    def __rtruediv__(self, o):
        o = SymComplex.of(o)
        return NotImplemented if o is None else o / self

    def __pow__(self, k):
        if k == 2:
            return self * self
        raise Unsupported('power of a complex number')

    def __abs__(self):
        a = lift(self.re * self.re + self.im * self.im)
        if a.is_const() or a.d:
            return _UNARY['sqrt'](a)
        # kept as one magnitude even where it is the absolute value of a real number: no case split
        g = core.REG.new(('sqrt', core.p_key(a.n)), 'sqrt_%d' % len(core.REG.gens), False, 'sqrt', a.n)
        core.ENG.activate(g)
        return Sym({((g.id, 1),): core.F1})

    def sqrt(self):
        raise Unsupported('sqrt of a complex number')

    exp = log = sqrt

    def __eq__(self, o):
        o = SymComplex.of(o)
        return core.s_and(lift(self.re) == o.re, lift(self.im) == o.im)

    def __ne__(self, o):
        return core.s_not(self == o)

    __hash__ = None

    def __float__(self):
        return float(self.re)

    def __repr__(self):
        return '(%r + %rj)' % (self.re, self.im)


def _re(v):
    return v.re if isinstance(v, SymComplex) else v.real if isinstance(v, (complex, np.complexfloating)) else v


def _im(v):
    return v.im if isinstance(v, SymComplex) else v.imag if isinstance(v, (complex, np.complexfloating)) else 0


def _cpart(f, nf):
    def g(a):
        if isinstance(a, SymComplex):
            return f(a)
        if isinstance(a, np.ndarray) and isO(a):
            return _emap(f, a)
        return nf(a)
    return g


S.real = _cpart(_re, np.real)
S.imag = _cpart(_im, np.imag)
SymArray.real = property(lambda self: _emap(_re, self) if isO(self) else np.asarray(self).real)
SymArray.imag = property(lambda self: _emap(_im, self) if isO(self) else np.asarray(self).imag)
_UNARY['conjugate'] = lambda v: v.conjugate() if isinstance(v, SymComplex) else v
SymArray.conj = lambda self: _emap(_UNARY['conjugate'], self)


def _dft(x, n, sign, out, inverse):
    """rows of x -> rows of DFT values (SymComplex), out frequencies / samples"""
    x = np.asarray(x, dtype=object)
    res = np.empty(x.shape[:-1] + (out,), dtype=object)
    tw = []
    for k in range(n):
        c, s = math.cos(2 * math.pi * k / n), sign * math.sin(2 * math.pi * k / n)
        c, s = [0.0 if abs(v) < 1e-15 else math.copysign(1.0, v) if abs(abs(v) - 1) < 1e-15 else v for v in (c, s)]
        tw.append((c, s))
    for ix in np.ndindex(*x.shape[:-1]):
        row = [SymComplex.of(v) for v in x[ix]][:n]
        for k in range(out):
            re, im = 0, 0
            for t, v in enumerate(row):
                c, s = tw[(t * k) % n]
                re = re + v.re * c - v.im * s
                im = im + v.re * s + v.im * c
            if inverse:
                re, im = lift(re) / n, lift(im) / n
            res[ix + (k,)] = SymComplex(re, im)
    return res.view(SymArray)


def _fftf(name):
    real = getattr(np.fft, name)

    def f(a, n=None, axis=-1, norm=None):
        if not (isinstance(a, np.ndarray) and isO(a)) and not has_sym(a):
            return real(a, n=n, axis=axis, norm=norm)
        if norm not in (None, 'backward'):
            raise Unsupported('norm of the fft')
        a = np.moveaxis(np.asarray(a, dtype=object), axis, -1)
        if name in ('fft', 'rfft'):
            n = a.shape[-1] if n is None else int(n)
            r = _dft(a, n, -1, n if name == 'fft' else n // 2 + 1, False)
        elif name == 'ifft':
            n = a.shape[-1] if n is None else int(n)
            r = _dft(a, n, 1, n, True)
        else:
            n = 2 * (a.shape[-1] - 1) if n is None else int(n)
            full = np.empty(a.shape[:-1] + (n,), dtype=object)
            full.fill(0)
            for k in range(n // 2 + 1):
                if k < a.shape[-1]:
                    for ix in np.ndindex(*a.shape[:-1]):
                        v = SymComplex.of(a[ix + (k,)])
                        edge = k == 0 or 2 * k == n
                        full[ix + (k,)] = SymComplex(v.re, 0) if edge else v
                        if not edge:
                            full[ix + (n - k,)] = v.conjugate()
            r = _emap(_re, _dft(full, n, 1, n, True))
        return np.moveaxis(np.asarray(r, dtype=object), -1, axis).view(SymArray)
    return f


for _n in ('fft', 'ifft', 'rfft', 'irfft'):
    setattr(FFT, _n, _fftf(_n))


def dct_ortho(x, type=2, n=None, axis=-1, norm=None, overwrite_x=False):
    """orthonormal DCT-II along the last axis"""
    if type != 2 or norm != 'ortho' or axis not in (-1, np.ndim(x) - 1) or n is not None:
        raise Unsupported('dct variant')
    m = np.shape(x)[-1]
    k, t = np.arange(m)[:, None], np.arange(m)[None, :]
    D = np.sqrt(2.0 / m) * np.cos(np.pi * k * (2 * t + 1) / (2 * m))
    D[0] = np.sqrt(1.0 / m)
    return np.asarray(x, dtype=object).dot(D.T.astype(object)).view(SymArray)
