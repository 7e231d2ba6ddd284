"""Symbolic execution core.

The functions of /repo are *executed as they are* by the Python interpreter;
their numeric inputs are `Sym` objects (rational functions over solver
variables).  Whenever the running code has to decide something (``if``,
``sort``, ``argmax``, indexing with a symbolic integer, ...) the engine asks z3
which outcomes are possible on the current path and explores every one of
them (depth first, by re-execution).  Properties are claims over the symbolic
results; each claim is decided by z3 for *all* values that follow the path.
"""
from fractions import Fraction
import math
import time
import z3

F0 = Fraction(0)
F1 = Fraction(1)


class Unsupported(Exception):
    """the engine cannot interpret an operation (path becomes inconclusive)"""


class StopPath(BaseException):
    """the current path is infeasible / cut by an assumption"""


class Deadline(BaseException):
    pass


class CandidateFound(BaseException):
    """internal: a claim failed on this path, stop exploring this path"""


# ---------------------------------------------------------------- generators
class Gen(object):
    __slots__ = ('id', 'name', 'z', 'is_int', 'kind', 'data', 'pos')

    def __init__(self, id, name, z, is_int, kind, data=None, pos=False):
        self.id = id
        self.name = name
        self.z = z
        self.is_int = is_int
        self.kind = kind      # in | sqrt | log | exp | floor | fn
        self.data = data
        self.pos = pos        # known > 0


class Registry(object):
    """symbol table of one job (configuration)."""

    def __init__(self):
        self.gens = []
        self.by_key = {}
        self.zcache = {}

    def new(self, key, name, is_int, kind, data=None, pos=False):
        g = self.by_key.get(key)
        if g is not None:
            return g
        z = z3.Int(name) if is_int else z3.Real(name)
        g = Gen(len(self.gens), name, z, is_int, kind, data, pos)
        self.gens.append(g)
        self.by_key[key] = g
        return g


REG = Registry()
ENG = None      # current Engine


def reset_registry():
    global REG
    REG = Registry()


# ---------------------------------------------------------------- polynomials
# poly: dict  monomial -> Fraction ; monomial: tuple of (gen id, exponent)
def p_const(c):
    return {(): c} if c else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_scale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for g, e in b:
        d[g] = d.get(g, 0) + e
    return tuple(sorted((g, e) for g, e in d.items() if e))


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(b) == 1:
        a, b = b, a
    if len(a) == 1:
        (m1, c1), = a.items()
        if not m1:
            return p_scale(b, c1)
    r = {}
    need = False
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m)
            c = c1 * c2
            r[m] = c if v is None else v + c
    r = {m: c for m, c in r.items() if c}
    gens = REG.gens
    for m in r:
        for g, e in m:
            if e >= 2 and gens[g].kind == 'sqrt':
                need = True
                break
        if need:
            break
    if need:
        r = p_reduce(r)
    if ENG is not None and len(r) > 20000:
        raise Unsupported('polynomial too large')
    return r


def p_reduce(a):
    """replace r**2 by its radicand for every square-root generator"""
    gens = REG.gens
    while True:
        hit = None
        for m in a:
            for g, e in m:
                if e >= 2 and gens[g].kind == 'sqrt':
                    hit = g
                    break
            if hit is not None:
                break
        if hit is None:
            return a
        rad = gens[hit].data
        out = {}
        powcache = {}
        for m, c in a.items():
            e = dict(m).get(hit, 0)
            if e < 2:
                out = p_add(out, {m: c})
                continue
            k, rem = divmod(e, 2)
            d = dict(m)
            if rem:
                d[hit] = 1
            else:
                del d[hit]
            if k not in powcache:
                pw = p_const(F1)
                for _ in range(k):
                    pw = p_mul(pw, rad)
                powcache[k] = pw
            out = p_add(out, p_mul({tuple(sorted(d.items())): c}, powcache[k]))
        a = out


def p_key(a):
    return tuple(sorted(a.items()))


def p_is_const(a):
    return not a or (len(a) == 1 and () in a)


def p_cval(a):
    return a.get((), F0)


def p_lead(a):
    return max(a)


def p_divexact(a, f, limit=4000):
    """exact multivariate division a/f or None (lexicographic order)."""
    if not a:
        return {}
    if len(f) == 1:
        (mf, cf), = f.items()
        out = {}
        df = dict(mf)
        for m, c in a.items():
            d = dict(m)
            for g, e in df.items():
                v = d.get(g, 0) - e
                if v < 0:
                    return None
                if v:
                    d[g] = v
                else:
                    d.pop(g, None)
            out[tuple(sorted(d.items()))] = c / cf
        return out
    if len(f) > len(a) * 4 + 4 or len(a) > limit:
        return None
    # dense exponent vectors on the union of generators
    gs = sorted({g for m in a for g, _ in m} | {g for m in f for g, _ in m})
    ga = {g for m in a for g, _ in m}
    if any(g not in ga for m in f for g, _ in m):
        return None
    ix = {g: i for i, g in enumerate(gs)}

    def vec(m):
        v = [0] * len(gs)
        for g, e in m:
            v[ix[g]] = e
        return tuple(v)
    A = {vec(m): c for m, c in a.items()}
    B = {vec(m): c for m, c in f.items()}
    lb = max(B)
    cb = B[lb]
    items = [(m, c) for m, c in B.items() if m != lb]
    # quick reject: trailing monomial must divide as well
    tb = min(B)
    q = {}
    import heapq
    steps = 0
    while A:
        la = max(A)
        mm = tuple(x - y for x, y in zip(la, lb))
        if min(mm) < 0:
            return None
        steps += 1
        if steps > limit:
            return None
        c = A.pop(la) / cb
        q[mm] = c
        for m, cm in items:
            k = tuple(x + y for x, y in zip(m, mm))
            v = A.get(k, F0) - c * cm
            if v:
                A[k] = v
            else:
                A.pop(k, None)
    return {tuple((gs[i], e) for i, e in enumerate(m) if e): c
            for m, c in q.items()}


def p_z3(a):
    """polynomial -> z3 term (Int sort if everything is integral)"""
    k = p_key(a)
    z = REG.zcache.get(k)
    if z is not None:
        return z
    gens = REG.gens
    allint = all(c.denominator == 1 for c in a.values()) and \
        all(gens[g].is_int for m in a for g, _ in m)
    terms = []
    for m, c in a.items():
        fs = []
        for g, e in m:
            v = gens[g].z
            if gens[g].is_int and not allint:
                v = z3.ToReal(v)
            for _ in range(e):
                fs.append(v)
        if allint:
            cz = z3.IntVal(int(c))
        else:
            cz = z3.Q(c.numerator, c.denominator)
        if not fs:
            terms.append(cz)
        else:
            t = fs[0]
            for f_ in fs[1:]:
                t = t * f_
            if c != 1:
                t = cz * t
            terms.append(t)
    if not terms:
        z = z3.IntVal(0) if allint else z3.RealVal(0)
    elif len(terms) == 1:
        z = terms[0]
    else:
        z = z3.Sum(terms)
    REG.zcache[k] = z
    return z


# ---------------------------------------------------------------- conversion
_FCACHE = {}


def to_fraction(v):
    """exact decimal reading of python/numpy numbers (1e-5 means 1/100000)"""
    if isinstance(v, Fraction):
        return v
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        r = _FCACHE.get(v)
        if r is None:
            if math.isinf(v) or math.isnan(v):
                raise ValueError('non finite')
            v = float(v)
            r = Fraction(repr(v))
            if r.denominator > 10 ** 12:        # quotients of small integers such as 2/3 are read exactly
                q = Fraction(v).limit_denominator(1000)
                if float(q) == v:
                    r = q
            if len(_FCACHE) < 100000:
                _FCACHE[v] = r
        return r
    if hasattr(v, 'item'):
        w = v.item()
        if hasattr(v, 'dtype') and v.dtype.kind == 'f' and v.dtype.itemsize < 8:
            return Fraction(str(v))
        return to_fraction(w)
    raise TypeError('not a number: %r' % (type(v),))


def is_special(v):
    try:
        return isinstance(v, float) and (math.isinf(v) or math.isnan(v))
    except Exception:
        return False


# ---------------------------------------------------------------- Sym numbers
class Sym(object):
    """num / prod(den factors); den: tuple of (poly key, exp) sorted"""
    __slots__ = ('n', 'd', '_k')

    def __init__(self, n, d=()):
        self.n = n
        self.d = d
        self._k = None

    # -- helpers
    def key(self):
        if self._k is None:
            self._k = (p_key(self.n), self.d)
        return self._k

    def is_const(self):
        return not self.d and p_is_const(self.n)

    def const(self):
        return p_cval(self.n)

    @property
    def is_int(self):
        if self.d:
            return False
        gens = REG.gens
        return all(c.denominator == 1 for c in self.n.values()) and \
            all(gens[g].is_int for m in self.n for g, _ in m)

    def den_poly(self):
        r = p_const(F1)
        for k, e in self.d:
            f = dict(k)
            for _ in range(e):
                r = p_mul(r, f)
        return r

    # -- numpy duck typing
    ndim = 0
    shape = ()

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, dtype, copy=True):
        from .symnp import cast_scalar
        return cast_scalar(self, dtype)

    def ravel(self):
        import numpy
        from .symnp import SymArray
        return numpy.array([self], dtype=object).view(SymArray)

    def sum(self, *a, **k):
        return self

    # -- arithmetic
    def __neg__(self):
        return Sym(p_neg(self.n), self.d)

    def __pos__(self):
        return self

    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if type(o) is float:
            return o
        return s_add(self, o)
    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if type(o) is float:
            return -o
        return s_add(self, -o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if type(o) is float:
            return o
        return s_add(o, -self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if type(o) is float:
            return s_mulspecial(self, o)
        return s_mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if type(o) is float:
            return float('nan') if math.isnan(o) else 0.0
        return s_div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if type(o) is float:
            return s_mulspecial(self, o)
        return s_div(o, self)

    def __floordiv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return s_floor(s_div(self, o))

    def __rfloordiv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return s_floor(s_div(o, self))

    def __mod__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return self - o * lift(s_floor(s_div(self, o)))

    def __rmod__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return o - self * lift(s_floor(s_div(o, self)))

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __rdivmod__(self, o):
        q = o // self
        return q, o - q * self

    def __pow__(self, e):
        e2 = lift(e)
        if e2 is NotImplemented:
            return NotImplemented
        if type(e2) is float:
            raise Unsupported('pow inf')
        if e2.is_const():
            c = e2.const()
            if c.denominator == 1 and abs(c) <= 64:
                c = int(c)
                if c >= 0:
                    r = Sym(p_const(F1))
                    for _ in range(c):
                        r = s_mul(r, self)
                    return r
                return s_div(Sym(p_const(F1)), self ** (-c))
            if c == Fraction(1, 2):
                return s_sqrt(self)
            if c == Fraction(-1, 2):
                return 1 / s_sqrt(self)
        # a**b = exp(b*log a)
        return s_exp(e2 * s_log(self))

    def __rpow__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if self.is_const():
            return o ** self.const()
        return s_exp(self * s_log(o))

    def __abs__(self):
        if self.is_const():
            return Sym(p_const(abs(self.const())))
        if self < 0:
            return -self
        return self

    # -- comparisons
    def __lt__(self, o):
        return s_cmp('lt', self, o)

    def __le__(self, o):
        return s_cmp('le', self, o)

    def __gt__(self, o):
        return s_cmp('gt', self, o)

    def __ge__(self, o):
        return s_cmp('ge', self, o)

    def __eq__(self, o):
        return s_cmp('eq', self, o)

    def __ne__(self, o):
        return s_cmp('ne', self, o)

    def __hash__(self):
        return 7

    def __bool__(self):
        r = s_cmp('ne', self, 0)
        return bool(r)

    # -- to machine values
    def __float__(self):
        if self.is_const():
            return float(self.const())
        if TOKENS[0]:
            return float(TOKF + token(self))
        raise Unsupported('float() of a symbolic real')

    def __index__(self):
        if self.is_const():
            c = self.const()
            if c.denominator != 1:
                raise TypeError('non integer index')
            return int(c)
        if not self.is_int:
            raise TypeError('only integers can be used as index')
        return ENG.concretize(self)

    def __int__(self):
        t = s_trunc(self)
        if isinstance(t, Sym):
            if TOKENS[0] and not t.is_const():
                return TOKI + token(t)
            return t.__index__()
        return int(t)

    def __complex__(self):
        return complex(float(self))

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return -lift(s_floor(-self))

    def __trunc__(self):
        return s_trunc(self)

    def __round__(self, nd=None):
        if nd:
            raise Unsupported('round to digits')
        return s_rint(self)

    # numpy object loops call these
    def sqrt(self):
        return s_sqrt(self)

    def exp(self):
        return s_exp(self)

    def log(self):
        return s_log(self)

    def log10(self):
        return s_log(self) / LOG10

    def log2(self):
        return s_log(self) / LOG2

    def rint(self):
        return s_rint(self)

    def floor(self):
        return s_floor(self)

    def ceil(self):
        return self.__ceil__()

    def square(self):
        return self * self

    def __repr__(self):
        try:
            s = str(p_z3(self.n)).replace('\n', ' ')
        except Exception:
            s = '?'
        if self.d:
            s = '(%s)/(%s)' % (s, ' * '.join(
                '(%s)^%d' % (str(p_z3(dict(k))).replace('\n', ' '), e) for k, e in self.d))
        return 'Sym<%s>' % s[:300]

    def __str__(self):
        if TOKENS[0] and not self.is_const():
            return str(TOKI + token(self)) if self.is_int else repr(TOKF + token(self))
        return repr(self)

    def __format__(self, spec):
        if TOKENS[0] and not self.is_const():
            return format(TOKI + token(self) if self.is_int else float(TOKF + token(self)), spec)
        if spec == '' or self.is_const() is False:
            return repr(self)
        c = self.const()
        return format(int(c) if c.denominator == 1 else float(c), spec)


# text mode: symbolic numbers written to a text file leave a recognisable token
TOKENS = [False]
TOKTAB = []
TOKI = 10 ** 40
TOKFRAC = 0.4545454545          # a number written with d decimals comes back 0.45e-d away
TOKF = 2.0 ** 27 + TOKFRAC


def token(x):
    TOKTAB.append(x)
    return len(TOKTAB) - 1


def untoken(v):
    """token (int, float or their text) -> symbolic number; anything else unchanged"""
    if not TOKENS[0]:
        return v
    w = v
    if isinstance(v, str):
        try:
            w = int(v)
        except ValueError:
            try:
                w = float(v)
            except ValueError:
                return v
    if isinstance(w, int) and not isinstance(w, bool) and TOKI <= w < TOKI + len(TOKTAB):
        return TOKTAB[w - TOKI]
    if isinstance(w, float) and TOKF - .1 <= w < TOKF + len(TOKTAB):
        k = int(round(w - TOKF))
        e = w - TOKF - k
        if abs(e) < 0.05:
            return TOKTAB[k] if abs(e) < 6e-7 else TOKTAB[k] + to_fraction(round(e, 7))
    return v


LOG10 = math.log(10)
LOG2 = math.log(2)


def const(c):
    return Sym(p_const(to_fraction(c)))


def lift(v):
    """-> Sym | special float | NotImplemented"""
    if type(v) is Sym:
        return v
    if isinstance(v, SBool):
        if v.ind is not None and v.known() is None:
            return v.ind
        return const(1) if bool(v) else const(0)
    if isinstance(v, (bool, int, Fraction)):
        return Sym(p_const(Fraction(v)))
    if isinstance(v, float):
        v = float(v)
        if math.isinf(v) or math.isnan(v):
            return v
        return Sym(p_const(to_fraction(v)))
    try:
        import numpy as np
        if isinstance(v, np.generic):
            if v.dtype.kind in 'fiub':
                f = float(v)
                if math.isinf(f) or math.isnan(f):
                    return f
                return Sym(p_const(to_fraction(v)))
        if isinstance(v, np.ndarray) and v.ndim == 0:
            return lift(v.item())
    except Exception:
        pass
    return NotImplemented


def simp(s):
    """collapse constant Sym to python number"""
    if isinstance(s, Sym) and s.is_const():
        c = s.const()
        return int(c) if c.denominator == 1 else float(c)
    return s


def _mkden(fs):
    return tuple(sorted((k, e) for k, e in fs.items() if e))


def _cancel(n, fs):
    """cancel den factors dividing the numerator"""
    if not n:
        return n, {}
    for k in list(fs):
        while fs.get(k, 0) > 0:
            q = p_divexact(n, dict(k))
            if q is None:
                break
            n = q
            fs[k] -= 1
        if not fs[k]:
            del fs[k]
    return n, fs


def s_add(a, b):
    if not a.n:
        return b
    if not b.n:
        return a
    if a.d == b.d:
        n = p_add(a.n, b.n)
        if not a.d:
            return Sym(n)
        n, fs = _cancel(n, dict(a.d))
        return Sym(n, _mkden(fs))
    fa, fb = dict(a.d), dict(b.d)
    l = dict(fa)
    for k, e in fb.items():
        if l.get(k, 0) < e:
            l[k] = e

    def up(p, f):
        for k, e in l.items():
            for _ in range(e - f.get(k, 0)):
                p = p_mul(p, dict(k))
        return p
    n = p_add(up(a.n, fa), up(b.n, fb))
    n, l = _cancel(n, l)
    return Sym(n, _mkden(l))


def s_mul(a, b):
    if not a.d and not b.d:
        return Sym(p_mul(a.n, b.n))
    if not a.n or not b.n:
        return Sym({})
    fa, fb = dict(a.d), dict(b.d)
    na, fb = _cancel(a.n, fb)
    nb, fa = _cancel(b.n, fa)
    n = p_mul(na, nb)
    for k, e in fb.items():
        fa[k] = fa.get(k, 0) + e
    if any(REG.gens[g].kind == 'sqrt' for m in n for g, _ in m):
        n, fa = _cancel(n, fa)
    return Sym(n, _mkden(fa))


def s_mulspecial(a, o):
    """Sym * (inf|nan)"""
    if math.isnan(o):
        return o
    if a > 0:
        return o
    if a < 0:
        return -o
    return float('nan')


def s_inv(b):
    """1/b for b known non zero"""
    n = p_const(F1)
    for k, e in b.d:
        f = dict(k)
        for _ in range(e):
            n = p_mul(n, f)
    p = b.n
    if p_is_const(p):
        return Sym(p_scale(n, 1 / p_cval(p)))
    fs = {}
    gens = REG.gens
    # monomial content
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {g: min(e, d[g]) for g, e in common.items() if g in d}
        if not common:
            break
    if common:
        p = p_divexact(p, {tuple(sorted(common.items())): F1})
        for g, e in common.items():
            if gens[g].kind == 'sqrt':
                # 1/r = r/rad
                n = p_mul(n, {((g, 1),): F1})
                r = s_inv(Sym(gens[g].data))
                n = p_mul(n, r.n)
                for k, ee in r.d:
                    fs[k] = fs.get(k, 0) + ee
            else:
                k = ((((g, 1),), F1),)
                fs[k] = fs.get(k, 0) + e
    if p_is_const(p):
        n = p_scale(n, 1 / p_cval(p))
    else:
        c = p[p_lead(p)]
        n = p_scale(n, 1 / c)
        k = p_key(p_scale(p, 1 / c))
        fs[k] = fs.get(k, 0) + 1
    n, fs = _cancel(n, fs)
    return Sym(n, _mkden(fs))


def s_div(a, b):
    if b.is_const():
        c = b.const()
        if c:
            return Sym(p_scale(a.n, 1 / c), a.d)
    elif ENG is None or not ENG.is_zero_possible(b):
        return s_mul(a, s_inv(b))
    elif not bool(s_cmp('eq', b, 0)):
        return s_mul(a, s_inv(b))
    # division by exactly zero (IEEE semantics)
    ENG.note_event('div0')
    s = s_cmp('gt', a, 0)
    if bool(s):
        return float('inf')
    if bool(s_cmp('lt', a, 0)):
        return float('-inf')
    return float('nan')


def frac_sqrt(c):
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def s_sqrt(a):
    a = lift(a)
    if type(a) is float:
        return math.sqrt(a) if a > 0 else float('nan')
    if a.is_const():
        c = a.const()
        if c < 0:
            return float('nan')
        r = frac_sqrt(c)
        if r is not None:
            return Sym(p_const(r))
    elif ENG is not None and not sure_sign(a) and bool(s_cmp('lt', a, 0)):
        return float('nan')
    den = a.den_poly()
    p = a.n
    dd = dict(a.d)
    out = Sym(p_const(F1))
    # sqrt(n/d) = sqrt(n * d_odd) / (d_even stuff)
    for k, e in dd.items():
        f = dict(k)
        h, odd = divmod(e, 2)
        if odd:
            p = p_mul(p, f)
            h += 1
        # divide by |f|**h
        ff = Sym(f)
        if not p_is_const(f) and ENG is not None and bool(s_cmp('lt', ff, 0)):
            ff = -ff
        for _ in range(h):
            out = s_mul(out, s_inv(ff))
    if not p:
        return Sym({})
    if p_is_const(p):
        r = frac_sqrt(p_cval(p))
        if r is not None:
            return Sym(p_scale(out.n, r), out.d)
    # content: rational squares and monomial squares
    c = abs(p[p_lead(p)])
    r = frac_sqrt(c)
    if r is None:
        # keep a square-free-ish integer
        c = F1
        r = F1
    p = p_scale(p, 1 / c)
    out = Sym(p_scale(out.n, r), out.d)
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {g: min(e, d[g]) for g, e in common.items() if g in d}
    sq = {g: e - (e % 2) for g, e in (common or {}).items() if e >= 2}
    if sq:
        p = p_divexact(p, {tuple(sorted(sq.items())): F1})
        for g, e in sq.items():
            v = Sym({((g, 1),): F1})
            if not REG.gens[g].pos and bool(s_cmp('lt', v, 0)):
                v = -v
            for _ in range(e // 2):
                out = s_mul(out, v)
    if p_is_const(p):
        r = frac_sqrt(p_cval(p))
        if r is not None:
            return Sym(p_scale(out.n, r), out.d)
    q = p_sqrt_try(p)
    if q is not None:
        v = Sym(q)
        if bool(s_cmp('lt', v, 0)):
            v = -v
        return s_mul(out, v)
    g = REG.new(('sqrt', p_key(p)), 'sqrt_%d' % len(REG.gens), False, 'sqrt', p)
    if ENG is not None:
        ENG.activate(g)
    return s_mul(out, Sym({((g.id, 1),): F1}))


_PSD = {}


def sure_sign(a):
    """'gt' / 'ge' when a is certainly positive / non negative whatever its variables, else None
    (sums of non negative terms; quadratic forms by an exact LDL^T decomposition)"""
    for k, e in a.d:
        if e % 2:
            return None
    p = a.n
    gens = REG.gens
    c0 = p.get((), 0)
    if all(c > 0 and all(gens[g].pos or gens[g].kind == 'sqrt' or e % 2 == 0 for g, e in m) for m, c in p.items()):
        return 'gt' if c0 > 0 else 'ge'
    if len(p) > 400 or any(sum_exp(m) > 2 for m in p):
        return None
    key = p_key(p)
    if key not in _PSD:
        _PSD[key] = _psd_sign(p)
        if len(_PSD) > 20000:
            _PSD.clear()
            return _psd_sign(p)
    return _PSD[key]


def sum_exp(m):
    n = 0
    for _, e in m:
        n += e
    return n


def _psd_sign(p):
    vs = sorted({g for m in p for g, _ in m})
    n = len(vs)
    if n == 0 or n > 16:
        return None
    ix = {g: i for i, g in enumerate(vs)}
    A = [[F0] * (n + 1) for _ in range(n + 1)]
    for m, c in p.items():
        if not m:
            A[n][n] += c
        elif len(m) == 1 and m[0][1] == 2:
            A[ix[m[0][0]]][ix[m[0][0]]] += c
        elif len(m) == 1:
            i = ix[m[0][0]]
            A[i][n] += c / 2
            A[n][i] += c / 2
        else:
            i, j = ix[m[0][0]], ix[m[1][0]]
            A[i][j] += c / 2
            A[j][i] += c / 2
    # eliminate the variables; what is left in the corner is the minimum
    for k in range(n):
        d = A[k][k]
        if d < 0:
            return None
        if d == 0:
            if any(A[k][j] != 0 for j in range(k + 1, n + 1)):
                return None
            continue
        for i in range(k + 1, n + 1):
            f = A[i][k] / d
            if f:
                for j in range(k, n + 1):
                    A[i][j] -= f * A[k][j]
    m = A[n][n]
    return 'gt' if m > 0 else 'ge' if m == 0 else None


def p_sqrt_try(p):
    """polynomial square root if p is the square of a (<= few terms) polynomial"""
    if len(p) == 1 or len(p) > 60:
        return None
    lm = p_lead(p)
    c = frac_sqrt(p[lm])
    if c is None or any(e % 2 for _, e in lm):
        return None
    # incremental square root by leading terms on dense lexicographic order
    gs = sorted({g for m in p for g, _ in m})
    ix = {g: i for i, g in enumerate(gs)}

    def vec(m):
        v = [0] * len(gs)
        for g, e in m:
            v[ix[g]] = e
        return tuple(v)
    P = {vec(m): cc for m, cc in p.items()}
    l = max(P)
    c = frac_sqrt(P[l]) if P[l] > 0 else None
    if c is None or any(e % 2 for e in l):
        return None
    l0 = tuple(e // 2 for e in l)
    q = {l0: c}
    R = dict(P)
    del R[l]
    for _ in range(40):
        if not R:
            return {tuple((gs[i], e) for i, e in enumerate(m) if e): cc for m, cc in q.items()}
        t = max(R)
        mm = tuple(x - y for x, y in zip(t, l0))
        if min(mm) < 0:
            return None
        cc = R[t] / (2 * c)
        if mm in q:
            return None
        # R -= 2*q*new + new^2
        for m, v in list(q.items()):
            k = tuple(x + y for x, y in zip(m, mm))
            w = R.get(k, F0) - 2 * v * cc
            if w:
                R[k] = w
            else:
                R.pop(k, None)
        k = tuple(2 * x for x in mm)
        w = R.get(k, F0) - cc * cc
        if w:
            R[k] = w
        else:
            R.pop(k, None)
        q[mm] = cc
    return None


def s_log(a):
    a = lift(a)
    if type(a) is float:
        return a if a > 0 or a != a else float('nan')
    if a.is_const():
        c = a.const()
        if c < 0:
            return float('nan')
        if c == 0:
            return float('-inf')
        if c == 1:
            return Sym({})
        return Sym(p_const(to_fraction(math.log(c.numerator) - math.log(c.denominator))))
    if ENG is not None and sure_sign(a) != 'gt':
        if not bool(s_cmp('gt', a, 0)):
            return float('-inf') if bool(s_cmp('eq', a, 0)) else float('nan')
    out = _log_poly(a.n)
    for k, e in a.d:
        out = s_add(out, s_mul(const(-e), _log_poly(dict(k))))
    return out


def _log_poly(p):
    """log|p| split over content, monomials and known square roots"""
    if p_is_const(p):
        c = abs(p_cval(p))
        if c == 1:
            return Sym({})
        return Sym(p_const(to_fraction(math.log(c.numerator) - math.log(c.denominator))))
    gens = REG.gens
    out = Sym({})
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {g: min(e, d[g]) for g, e in common.items() if g in d}
    if common:
        p = p_divexact(p, {tuple(sorted(common.items())): F1})
        for g, e in common.items():
            gg = gens[g]
            if gg.kind == 'exp':
                t = gg.data
            elif gg.kind == 'sqrt':
                t = s_mul(const(Fraction(1, 2)), _log_poly(gg.data))
            else:
                t = _log_gen({((g, 1),): F1})
            out = s_add(out, s_mul(const(e), t))
    c = p[p_lead(p)]
    if abs(c) != 1:
        out = s_add(out, _log_poly(p_const(abs(c))))
    p = p_scale(p, 1 / c)
    if p_is_const(p):
        return out
    # divide out factors already known as log arguments
    for key, g in list(REG.by_key.items()):
        if key[0] != 'log' or p_is_const(p):
            continue
        f = dict(key[1])
        if len(f) < 2:
            continue
        while len(p) > 1:
            q = p_divexact(p, f)
            if q is None:
                break
            if ENG is not None:
                ENG.activate(g)
            out = s_add(out, Sym({((g.id, 1),): F1}))
            p = q
            if p_is_const(p):
                break
    if p_is_const(p):
        c = abs(p_cval(p))
        return out if c == 1 else s_add(out, _log_poly(p_const(c)))
    return s_add(out, _log_gen(p))


def _log_gen(p):
    # canonical sign
    c = p[p_lead(p)]
    if c < 0:
        p = p_neg(p)
    g = REG.new(('log', p_key(p)), 'log_%d' % len(REG.gens), False, 'log', p)
    if ENG is not None:
        ENG.activate(g)
    return Sym({((g.id, 1),): F1})


def _magnitude(b):
    """|b| for the argument of a logarithm (kept up to sign)"""
    if ENG is None or bool(s_cmp('gt', b, 0)):
        return b
    return s_mul(const(-1), b)


def s_exp(a):
    a = lift(a)
    if type(a) is float:
        return a if (a != a or a > 0) else 0.0
    if a.is_const():
        c = a.const()
        if c == 0:
            return Sym(p_const(F1))
        try:
            return Sym(p_const(to_fraction(math.exp(c))))
        except OverflowError:
            return float('inf')
    if ENG is not None and ENG.exp_overflow and bool(s_cmp('gt', a, 700)):
        return float('inf')
    # split over the terms of the numerator
    out = Sym(p_const(F1))
    gens = REG.gens
    if a.d:
        items = [(Sym({m: F1}, a.d), c) for m, c in a.n.items()]
    else:
        items = [(Sym({m: F1}), c) for m, c in a.n.items()]
    for t, c in items:
        if t.is_const():
            out = s_mul(out, lift(s_exp(const(c))))
            continue
        m = next(iter(t.n))
        if not t.d and len(m) == 1 and m[0][1] == 1 and gens[m[0][0]].kind == 'log' \
                and c.denominator == 1:
            b = Sym(gens[m[0][0]].data)
            if int(c) % 2:
                b = _magnitude(b)
            v = b ** int(c)
            out = s_mul(out, v)
            continue
        if not t.d and len(m) == 1 and m[0][1] == 1 and gens[m[0][0]].kind == 'log' \
                and c.denominator == 2:
            b = s_sqrt(_magnitude(Sym(gens[m[0][0]].data)))
            v = b ** int(c * 2)
            out = s_mul(out, lift(v))
            continue
        q = c.denominator
        base = s_mul(t, const(Fraction(1, q)))
        g = REG.new(('exp', base.key()), 'exp_%d' % len(REG.gens), False, 'exp', base, pos=True)
        if ENG is not None:
            ENG.activate(g)
        k = c.numerator
        if abs(k) > 200:
            # keep the exponent inside the generator
            g = REG.new(('exp', s_mul(t, const(abs(c))).key()), 'exp_%d' % len(REG.gens), False,
                        'exp', s_mul(t, const(abs(c))), pos=True)
            if ENG is not None:
                ENG.activate(g)
            k = 1 if k > 0 else -1
        gm = Sym({((g.id, abs(k)),): F1})
        out = s_mul(out, gm if k > 0 else s_inv(gm))
    return out


def s_floor(a):
    a = lift(a)
    if type(a) is float:
        return a
    if a.is_const():
        return math.floor(a.const())
    if a.is_int:
        return a
    # split off the integral part
    if not a.d:
        gens = REG.gens
        ip, fp = {}, {}
        for m, c in a.n.items():
            if all(gens[g].is_int for g, _ in m):
                i = c.numerator // c.denominator
                if i:
                    ip[m] = Fraction(i)
                if c - i:
                    fp[m] = c - i
            else:
                fp[m] = c
        if ip:
            r = s_floor(Sym(fp))
            return s_add(Sym(ip), lift(r))
    g = REG.new(('floor', a.key()), 'floor_%d' % len(REG.gens), True, 'floor', a)
    if ENG is not None:
        ENG.activate(g)
    return Sym({((g.id, 1),): F1})


def s_trunc(a):
    a = lift(a)
    if type(a) is float:
        raise ValueError('cannot convert float to integer')
    if a.is_const():
        return math.trunc(a.const())
    if a.is_int:
        return a
    if bool(s_cmp('ge', a, 0)):
        return s_floor(a)
    return -lift(s_floor(-a))


def s_rint(a):
    """round half to even"""
    a = lift(a)
    if type(a) is float:
        return a
    if a.is_const():
        return round(a.const())
    if a.is_int:
        return a
    f = lift(s_floor(s_add(a, const(Fraction(1, 2)))))
    # tie: a+1/2 integral and f odd -> f-1
    if bool(s_cmp('eq', s_add(a, const(Fraction(1, 2))), f)):
        if bool(s_cmp('ne', f % 2, 0)):
            return f - 1
    return f


# ---------------------------------------------------------------- comparisons
_PY = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b,
       'ge': lambda a, b: a >= b, 'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b}


_FLIP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
_NEG = {'lt': 'ge', 'gt': 'le', 'le': 'gt', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}
_TRUTH = {'lt': frozenset((-1,)), 'gt': frozenset((1,)), 'le': frozenset((-1, 0)), 'ge': frozenset((0, 1)),
          'eq': frozenset((0,)), 'ne': frozenset((-1, 1))}
_ALL = frozenset((-1, 0, 1))


def s_cmp(op, a, b):
    b2 = lift(b)
    if b2 is NotImplemented:
        if hasattr(b, '__len__') and not isinstance(b, (str, bytes, tuple)):
            return NotImplemented       # an array compares element by element
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        return NotImplemented
    a = lift(a)
    if type(b2) is float:
        return _PY[op](0.0, b2) if type(a) is not float else _PY[op](a, b2)
    if type(a) is float:
        return _PY[op](a, 0.0)
    d = s_add(a, -b2)
    if d.is_const():
        return _PY[op](d.const(), 0)
    # canonical sign: remember what is already decided about it on this path
    if d.n[p_lead(d.n)] < 0:
        d = Sym(p_neg(d.n), d.d)
        op = _FLIP[op]
    return SBool(None, (d.key(), _TRUTH[op]), (op, d))


def sign_formula(op, d):
    """z3 formula for  d <op> 0"""
    n = d.n
    gens = REG.gens
    # strip positive monomial content of the numerator
    common = None
    for m in n:
        dd = dict(m)
        common = dd if common is None else {g: min(e, dd[g]) for g, e in common.items() if g in dd}
        if not common:
            break
    if common:
        strip = {g: e for g, e in common.items() if gens[g].pos}
        if strip:
            n = p_divexact(n, {tuple(sorted(strip.items())): F1})
    # clear numeric denominators
    l = 1
    for c in n.values():
        l = l * c.denominator // math.gcd(l, c.denominator)
    if l != 1:
        n = p_scale(n, Fraction(l))
    z = p_z3(n)
    zero = z3.IntVal(0) if z.is_int() else z3.RealVal(0)
    if op == 'eq':
        return z == zero
    if op == 'ne':
        return z != zero
    odd = [k for k, e in d.d if e % 2]
    odd = [k for k in odd if not _known_pos(k)]
    if odd:
        zd = None
        for k in odd:
            f = p_z3(dict(k))
            zd = f if zd is None else zd * f
        pos = zd > 0
        a = _rel(op, z, zero)
        b = _rel(op, zero, z)
        return z3.If(pos, a, b)
    return _rel(op, z, zero)


def _rel(op, a, b):
    if op == 'lt':
        return a < b
    if op == 'le':
        return a <= b
    if op == 'gt':
        return a > b
    return a >= b


def _known_pos(k):
    gens = REG.gens
    if len(k) == 1 and all(gens[g].pos for g, _ in k[0][0]) and k[0][1] > 0:
        return True
    if all(c > 0 and all(gens[g].pos or e % 2 == 0 for g, e in m) for m, c in k):
        # sum of non negative terms, non zero by construction
        return True
    if ENG is not None:
        return ENG.factor_positive(k)
    return False


class SBool(object):
    __slots__ = ('_z', 'm', 'src', 'ind')

    def __init__(self, z, m=None, src=None, ind=None):
        self.ind = ind   # equal 0/1 symbolic integer
        self._z = z
        self.m = m       # (sign key, signs for which it is true)
        self.src = src   # (op, difference) the formula is built from when needed

    @property
    def z(self):
        if self._z is None:
            self._z = sign_formula(*self.src)
        return self._z

    def known(self):
        if self.m is not None and ENG is not None:
            cur = ENG.signs.get(self.m[0], _ALL)
            if cur <= self.m[1]:
                return True
            if not (cur & self.m[1]):
                return False
        return None

    def __bool__(self):
        k = self.known()
        if k is not None:
            return k
        d = ENG.branch(self.z)
        if self.m is not None:
            ENG.learn(self.m, d)
        return d

    def __and__(self, o):
        o = as_z(o)
        return SBool(z3.And(self.z, o)) if o is not None else NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        o = as_z(o)
        return SBool(z3.Or(self.z, o)) if o is not None else NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        o = as_z(o)
        return SBool(z3.Xor(self.z, o)) if o is not None else NotImplemented
    __rxor__ = __xor__

    def __invert__(self):
        ind = None if self.ind is None else const(1) - self.ind
        if self.m is None:
            return SBool(z3.Not(self.z), ind=ind)
        return SBool(None, (self.m[0], _ALL - self.m[1]), (_NEG[self.src[0]], self.src[1]), ind)

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)) or hasattr(o, 'dtype') or o in (0, 1):
            z = as_z(bool(o) if not isinstance(o, SBool) else o)
            return SBool(self.z == z)
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SBool) else not r
    __hash__ = None

    # numeric use
    def _n(self):
        return lift(self)

    def __add__(self, o):
        return lift(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return lift(self) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return lift(self) - o

    def __rsub__(self, o):
        return o - lift(self)

    def __lt__(self, o):
        return lift(self) < lift(o)

    def __gt__(self, o):
        return lift(self) > lift(o)

    def __le__(self, o):
        return lift(self) <= lift(o)

    def __ge__(self, o):
        return lift(self) >= lift(o)

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return 'SBool<%s>' % str(self.z)[:200]


def as_z(o):
    if isinstance(o, SBool):
        return o.z
    if isinstance(o, bool):
        return z3.BoolVal(o)
    try:
        import numpy as np
        if isinstance(o, np.bool_):
            return z3.BoolVal(bool(o))
    except Exception:
        pass
    return None


def s_and(*xs):
    zs = []
    for x in xs:
        if isinstance(x, SBool):
            k = x.known()
            if k is None:
                zs.append(x)
            elif not k:
                return False
        elif not x:
            return False
    if not zs:
        return True
    return SBool(z3.And(*[x.z for x in zs])) if len(zs) > 1 else zs[0]


def s_or(*xs):
    zs = []
    for x in xs:
        if isinstance(x, SBool):
            k = x.known()
            if k is None:
                zs.append(x)
            elif k:
                return True
        elif x:
            return True
    if not zs:
        return False
    return SBool(z3.Or(*[x.z for x in zs])) if len(zs) > 1 else zs[0]


def s_not(x):
    if isinstance(x, SBool):
        return ~x
    return not x


def s_implies(a, b):
    return s_or(s_not(a), b)


# ---------------------------------------------------------------- ordered names
class Atom(object):
    """opaque name: only equality and order are observable"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v          # Sym int

    def __eq__(self, o):
        if isinstance(o, Atom):
            if o is self:
                return True
            return bool(self.v == o.v)
        return NotImplemented if hasattr(o, '__len__') and not isinstance(o, (str, bytes, tuple)) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        if not isinstance(o, Atom):
            return NotImplemented
        return bool(self.v < o.v)

    def __le__(self, o):
        if not isinstance(o, Atom):
            return NotImplemented
        return bool(self.v <= o.v)

    def __gt__(self, o):
        if not isinstance(o, Atom):
            return NotImplemented
        return bool(self.v > o.v)

    def __ge__(self, o):
        if not isinstance(o, Atom):
            return NotImplemented
        return bool(self.v >= o.v)

    def __hash__(self):
        return 11

    def encode(self, *a):
        return self

    def decode(self, *a):
        return self

    def __repr__(self):
        return 'Atom<%r>' % (self.v,)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------- the engine
class Engine(object):
    def __init__(self, deadline=None, qtimeout=4000, claim_timeout=20000, exp_overflow=False):
        self.exp_overflow = exp_overflow     # model IEEE overflow of exp()
        self.deadline = deadline
        self.qtimeout = qtimeout
        self.claim_timeout = claim_timeout
        self.work = [[]]
        self.stats = dict(paths=0, branches=0, queries=0, claims=0, unsat=0, sat=0, unknown=0,
                          infeasible=0, solver_s=0.0, unsupported=0, trivially=0)
        self.unsupported_msgs = {}
        self.reset_path([])

    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.solver = z3.SolverFor('QF_NIRA') if False else z3.Solver()
        self.solver.set('timeout', self.qtimeout)
        self.pc = []
        self.active = set()
        self.model = None
        self.fpos = {}
        self.signs = {}
        self.events = []
        self.assume_done = False

    # -- solver wrappers
    def _check(self, *extra, timeout=None):
        if self.deadline is not None and time.time() > self.deadline:
            raise Deadline()
        t = time.time()
        self.stats['queries'] += 1
        if timeout is not None:
            self.solver.set('timeout', timeout)
        r = self.solver.check(*extra)
        if timeout is not None:
            self.solver.set('timeout', self.qtimeout)
        if r == z3.unknown:
            # second opinion: nlsat on a fresh solver
            s = z3.Tactic('qfnra-nlsat').solver() if not self._has_int() else z3.SolverFor('QF_NIA')
            s.set('timeout', timeout or self.qtimeout)
            for c in self.pc:
                s.add(c)
            for c in extra:
                s.add(c)
            try:
                r = s.check()
                if r == z3.sat:
                    self._last_model = s.model()
            except z3.Z3Exception:
                r = z3.unknown
        elif r == z3.sat:
            self._last_model = self.solver.model()
        self.stats['solver_s'] += time.time() - t
        return r

    def _has_int(self):
        return any(REG.gens[i].is_int for i in self.active)

    def add(self, z):
        self.pc.append(z)
        self.solver.add(z)
        if self.model is not None:
            if not z3.is_true(self.model.eval(z, model_completion=True)):
                self.model = None

    def activate(self, g):
        """assert the defining axioms of a derived generator on this path"""
        if g.id in self.active:
            return
        self.active.add(g.id)
        if g.kind == 'sqrt':
            rad = p_z3(g.data)
            self.add(g.z >= 0)
            self.add(g.z * g.z == rad)
        elif g.kind == 'exp':
            self.add(g.z > 0)
        elif g.kind == 'floor':
            a = g.data
            q = Sym({((g.id, 1),): F1})
            self.add(sign_formula('le', s_add(q, -a)))
            self.add(sign_formula('lt', s_add(s_add(a, -q), const(-1))))

    def learn(self, m, d):
        cur = self.signs.get(m[0], _ALL)
        self.signs[m[0]] = (cur & m[1]) if d else (cur - m[1])

    def note_event(self, e):
        self.events.append(e)

    def assume(self, c):
        if isinstance(c, SBool):
            self.add(c.z)
            if c.m is not None:
                self.learn(c.m, True)
            if self.model is None:
                r = self._check()
                if r == z3.unsat:
                    raise StopPath()
                if r == z3.sat:
                    self.model = self._last_model
        elif not c:
            raise StopPath()

    def branch(self, z):
        if self.deadline is not None and time.time() > self.deadline:
            raise Deadline()
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.add(z if d else z3.Not(z))
            return d
        self.stats['branches'] += 1
        nz = z3.Not(z)
        side = None
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self._last_model
            elif r == z3.unsat:
                raise StopPath()
        if self.model is not None:
            v = self.model.eval(z, model_completion=True)
            if z3.is_true(v):
                side = True
            elif z3.is_false(v):
                side = False
        if side is None:
            r1 = self._check(z)
            m1 = self._last_model if r1 == z3.sat else None
            r2 = self._check(nz)
            t_ok, f_ok = r1 != z3.unsat, r2 != z3.unsat
            if not t_ok and not f_ok:
                raise StopPath()
            d = t_ok
            other = t_ok and f_ok
            self.model = m1 if d else (self._last_model if r2 == z3.sat else None)
        else:
            d = side
            keep = self.model
            r = self._check(nz if d else z)
            other = r != z3.unsat
            self.model = keep
        if other:
            self.work.append(self.trace + [not d])
        self.trace.append(d)
        self.pc.append(z if d else nz)
        self.solver.add(z if d else nz)
        return d

    def concretize(self, s):
        """fork over all feasible integer values of s"""
        z = p_z3(s.n)
        for _ in range(4096):
            i = len(self.trace)
            if i < len(self.prefix):
                # the value tried is stored in the prefix as a pair
                v, d = self.prefix[i]
            else:
                if self.model is None:
                    r = self._check()
                    if r == z3.sat:
                        self.model = self._last_model
                    else:
                        if r == z3.unsat:
                            raise StopPath()
                        raise Unsupported('cannot concretize')
                v = self.model.eval(z, model_completion=True).as_long()
                d = None
            cond = z == v
            if d is None:
                self.stats['branches'] += 1
                keep = self.model
                r = self._check(z3.Not(cond))
                if r != z3.unsat:
                    self.work.append(self.trace + [(v, False)])
                self.model = keep
                d = True
            self.trace.append((v, d))
            self.add(cond if d else z3.Not(cond))
            if d:
                return v
        raise Unsupported('concretize: too many values')

    def fork(self, z, lo, n):
        """fresh bounded integer: explore every value, no solver query needed"""
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i][1]
        else:
            if self.deadline is not None and time.time() > self.deadline:
                raise Deadline()
            self.stats['branches'] += 1
            for j in range(n - 1, 0, -1):
                self.work.append(self.trace + [('c', j)])
            k = 0
        self.trace.append(('c', k))
        self.add(z == lo + k)
        return lo + k

    def is_zero_possible(self, b):
        """cheap test whether the denominator can be zero on this path"""
        n = b.n
        gens = REG.gens
        if len(n) == 1 and all(gens[g].pos for g, _ in next(iter(n))):
            return False
        k = ('nz', p_key(n))
        v = self.fpos.get(k)
        if v is False:
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            ans = self.prefix[i][1]
        else:
            ans = self._check(p_z3(n) == 0) != z3.unsat
        self.trace.append(('nz', ans))
        if not ans:
            self.fpos[k] = False
        return ans

    def factor_positive(self, k):
        v = self.fpos.get(k)
        if v is not None:
            return v
        r = self._check(p_z3(dict(k)) <= 0)
        v = r == z3.unsat
        if v:
            self.fpos[k] = True
        return v

    # -- claims
    def prove(self, z, extra_first=list):
        """-> ('unsat'|'sat'|'unknown', model)"""
        self.stats['claims'] += 1
        if isinstance(z, bool) or z3.is_true(z) or z3.is_false(z):
            ok = z if isinstance(z, bool) else z3.is_true(z)
            if ok:
                self.stats['trivially'] += 1
                return 'unsat', None
            # constant false: any model of the path is a counterexample
            for ex in list(extra_first()) + [()]:
                r = self._check(*ex, timeout=self.claim_timeout)
                if r == z3.sat:
                    self.stats['sat'] += 1
                    return 'sat', self._last_model
            if r == z3.unsat:
                return 'unsat', None
            self.stats['unknown'] += 1
            return 'unknown', None
        nz = z3.Not(z)
        r = self._check(nz, timeout=self.claim_timeout)
        if r == z3.unsat:
            self.stats['unsat'] += 1
            return 'unsat', None
        if r == z3.sat:
            m = self._last_model
            for ex in extra_first():
                rr = self._check(nz, *ex, timeout=3000)
                if rr == z3.sat:
                    m = self._last_model
                    break
            self.stats['sat'] += 1
            return 'sat', m
        # unknown: try to find a concrete witness with the nice constraints
        for ex in extra_first():
            rr = self._check(nz, *ex, timeout=3000)
            if rr == z3.sat:
                self.stats['sat'] += 1
                return 'sat', self._last_model
        self.stats['unknown'] += 1
        return 'unknown', None
