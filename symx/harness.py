"""harness layer: one harness body is run symbolically (exploration) and
concretely (replay / cross validation) against the real code of /repo."""
import os
import sys
import json
import time
import math
import random
import traceback
import contextlib
from fractions import Fraction
import numpy as np
import scipy
import scipy.linalg as sla
import z3
from . import core, symnp
from .symnp import isO
from .core import Sym, SBool, Atom, s_and, s_or, s_not, s_implies, lift, const

REPO = os.environ.get('VERIF_REPO', '/repo')


class Skip(BaseException):
    """concrete inputs do not satisfy the assumptions"""


class ClaimFailed(Exception):
    pass


# ----------------------------------------------------------------- registry
HARNESSES = {}     # property -> list


class Harness(object):
    def __init__(self, prop, name, fn, configs, thorough, bounds, opts):
        self.prop, self.name, self.fn = prop, name, fn
        self.configs, self.thorough = configs, thorough
        self.bounds = bounds
        self.opts = opts


def harness(prop, configs=({},), thorough=None, bounds='', **opts):
    def deco(fn):
        h = Harness(prop, fn.__name__, fn, list(configs), list(thorough) if thorough is not None else None,
                    bounds, opts)
        HARNESSES.setdefault(prop, []).append(h)
        return fn
    return deco


# ----------------------------------------------------------------- environments
class EnvRng(object):
    """random number generator whose every outcome is an explored / solver chosen input"""

    def __init__(self, env, name='rng'):
        self.env, self.name, self.n = env, name, 0

    def _nm(self):
        self.n += 1
        return '%s%d' % (self.name, self.n)

    def seed(self, *a):
        pass

    def permutation(self, x):
        n = int(x) if isinstance(x, (int, np.integer)) else len(x)
        p = self.env.perm(self._nm(), n)
        return p if isinstance(x, (int, np.integer)) else x[p]

    def shuffle(self, x):
        p = self.env.perm(self._nm(), len(x))
        if isinstance(x, list):
            x[:] = [x[i] for i in p]
        else:
            x[...] = np.array(x, copy=True)[p]

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)

        def one(l, h):
            return self.env.cint(self._nm(), int(l), int(h) - 1)
        if size is None and np.ndim(lo) == 0 and np.ndim(hi) == 0:
            return one(lo, hi)
        shape = (size if isinstance(size, tuple) else (int(size),)) if size is not None else \
            np.broadcast(np.asarray(lo), np.asarray(hi)).shape
        lo, hi = np.broadcast_to(lo, shape), np.broadcast_to(hi, shape)
        out = np.zeros(shape, dtype=int)
        for ix in np.ndindex(*shape):
            out[ix] = one(lo[ix], hi[ix])
        return out

    def choice(self, a, size=None, replace=True, p=None):
        n = int(a) if isinstance(a, (int, np.integer)) else len(a)
        pool = list(range(n))
        shape = () if size is None else (size if isinstance(size, tuple) else (int(size),))
        out = np.zeros(shape, dtype=int)
        for ix in np.ndindex(*shape):
            if not pool:
                raise ValueError('cannot take a larger sample than population')
            k = self.env.choice(self._nm(), len(pool))
            out[ix] = pool[k]
            if not replace:
                pool.pop(k)
        r = out if size is not None else int(out[()])
        return r if isinstance(a, (int, np.integer)) else np.asarray(a)[r]

    def uniform(self, low=0.0, high=1.0, size=None):
        return self.env.real(self._nm(), size if size is None or isinstance(size, tuple) else (int(size),), lo=low, hi=high)

    def rand(self, *shape):
        return self.env.real(self._nm(), shape if shape else None, lo=0, hi=1)

    def random_sample(self, size=None):
        return self.uniform(size=size)

    def randn(self, *shape):
        return self.env.real(self._nm(), shape if shape else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self.env.real(self._nm(), size if size is None or isinstance(size, tuple) else (int(size),)) * scale + loc

    def __deepcopy__(self, memo):
        return self


class EnvBase(object):
    def __init__(self):
        self.observed = []

    def rng(self, name='rng'):
        return EnvRng(self, name)

    @contextlib.contextmanager
    def random_state(self, rng=None):
        """every generator the code creates inside is the explored one"""
        rng = self.rng() if rng is None else rng
        old, olds = np.random.RandomState, symnp.RND.__dict__.get('RandomState')
        np.random.RandomState = symnp.RND.RandomState = getattr(rng, 'make', lambda *a, **k: rng)
        try:
            yield rng
        finally:
            np.random.RandomState = old
            if olds is None:
                del symnp.RND.RandomState
            else:
                symnp.RND.RandomState = olds

    def typed(self, a, dtype):
        """array that shows the numpy type dtype to the code"""
        if self.symbolic:
            r = a.copy().view(symnp.SymArray)
            r._dt = np.dtype(dtype)
            return r
        return np.asarray(a).astype(dtype)

    def names(self, name, n):
        """fixed opaque distinct names (for text files)"""
        return np.array(['%s-%d' % (name, i) for i in range(n)])

    def words(self, n, start=0):
        """fixed distinct words which text parsers could take for something else"""
        w = ['007', 'nan', '1.0', 'NA', '1e2', 'null', '10', 'x-1', 'None', 'True', '-0', '0x1']
        return np.array([w[(start + i) % len(w)] for i in range(n)])

    def attempt(self, fn, *excs):
        """-> (raised?, result)"""
        try:
            return False, fn()
        except (core.Unsupported, core.StopPath, core.CandidateFound, core.Deadline):
            raise
        except (excs or (Exception,)) as e:
            return True, e

    def detok(self, x):
        if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
            a = np.asarray(x, dtype=object)
            out = np.empty(a.shape, dtype=object)
            for ix in np.ndindex(*a.shape):
                out[ix] = self.detok(a[ix])
            return out
        if isinstance(x, (int, np.integer, float, str)):
            v = core.untoken(int(x) if isinstance(x, np.integer) else float(x) if isinstance(x, np.floating) else x)
            return v
        return x

    _sdir = None

    def tmp(self, name):
        """path of a scratch file"""
        if self._sdir is None:
            import tempfile
            import weakref
            import shutil
            self._sdir = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
            weakref.finalize(self, shutil.rmtree, self._sdir, True)
        return os.path.join(self._sdir, name)


def _names(name, shape):
    if shape is None:
        return [name]
    return ['%s_%s' % (name, '_'.join(str(i) for i in ix)) for ix in np.ndindex(*shape)]


class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, eng, job):
        super().__init__()
        del symnp.EIGS[:]
        self.eng = eng
        self.job = job
        self.inputs = {}      # name -> Sym
        self.rank = 0

    # ---- inputs
    def _new(self, name, is_int, pos=False):
        if name in self.inputs:
            raise KeyError('duplicate input ' + name)
        g = core.REG.new(('in', name), name, is_int, 'in', None, pos)
        s = Sym({((g.id, 1),): core.F1})
        self.inputs[name] = s
        self.eng.active.add(g.id)
        return s

    def _arr(self, name, shape, mk):
        if shape is None:
            return mk(name)
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for n, ix in zip(_names(name, shape), np.ndindex(*shape)):
            out[ix] = mk(n)
        return out.view(symnp.SymArray)

    def real(self, name, shape=None, lo=None, hi=None, pos=False):
        def mk(n):
            s = self._new(n, False, pos)
            if pos:
                self.eng.add(core.p_z3(s.n) > 0)
            if lo is not None:
                self.eng.add(core.as_z(s >= lo))
            if hi is not None:
                self.eng.add(core.as_z(s <= hi))
            return s
        return self._arr(name, shape, mk)

    def int(self, name, lo=None, hi=None, shape=None):
        def mk(n):
            s = self._new(n, True)
            if lo is not None:
                self.eng.add(core.as_z(s >= lo))
            if hi is not None:
                self.eng.add(core.as_z(s <= hi))
            return s
        return self._arr(name, shape, mk)

    def bool(self, name, shape=None):
        """concrete boolean(s); every value is explored"""
        if shape is None:
            return self._fork(name, 0, 2) == 1
        if isinstance(shape, int):
            shape = (shape,)
        out = np.zeros(shape, dtype=bool)
        for n, ix in zip(_names(name, shape), np.ndindex(*shape)):
            out[ix] = self._fork(n, 0, 2) == 1
        return out

    def _fork(self, name, lo, n):
        s = self._new(name, True)
        return self.eng.fork(core.p_z3(s.n), lo, n)

    def sbool(self, name, shape):
        """array of booleans that stay symbolic"""
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object)
        for n, ix in zip(_names(name, shape), np.ndindex(*shape)):
            v = self.int(n, 0, 1)
            out[ix] = v == 1
            out[ix].ind = v
        return out.view(symnp.SymArray)

    def choice(self, name, n):
        """concrete integer in [0,n); every value is explored"""
        return self._fork(name, 0, n)

    def cint(self, name, lo, hi):
        return self._fork(name, lo, hi - lo + 1)

    def atoms(self, name, n, distinct=False):
        out = np.empty((n,), dtype=object)
        vs = [self._new('%s_%d' % (name, i), True) for i in range(n)]
        if distinct and n > 1:
            self.eng.add(z3.Distinct(*[core.p_z3(v.n) for v in vs]))
            for i in range(n):
                for j in range(i):
                    self.eng.learn((vs[i] != vs[j]).m, True)
        for i, v in enumerate(vs):
            out[i] = Atom(v)
        return out.view(symnp.SymArray)

    def perm(self, name, n):
        """arbitrary permutation of range(n); every one is explored"""
        left = list(range(n))
        out = []
        for i in range(n):
            k = self.choice('%s_%d' % (name, i), len(left))
            out.append(left.pop(k))
        return np.array(out, dtype=int)

    # ---- assumptions / claims
    def assume(self, c):
        if isinstance(c, np.ndarray):
            for e in c.flat:
                self.assume(e)
            return
        self.eng.assume(c)

    def _nice(self):
        """soft constraints making counterexamples replayable in floating point"""
        b = []
        for s in self.inputs.values():
            z = core.p_z3(s.n)
            if s.is_int:
                b.append(z3.And(z <= 50, z >= -50))
                continue
            lo = z3.Q(1, 8) if core.REG.gens[next(iter(s.n))[0][0]].pos else z3.RealVal(-20)
            b.append(z3.And(z <= 20, z >= lo))
        return [b] if b else []

    def _spread(self, rnd):
        """pin the real inputs to generic values (used to diversify path witnesses)"""
        out = []
        for s in self.inputs.values():
            if s.is_int:
                continue
            pos = core.REG.gens[next(iter(s.n))[0][0]].pos
            a = rnd.randint(2, 24) if pos else rnd.randint(-24, 24)
            out.append(core.p_z3(s.n) == z3.Q(a, 8))
        return out

    def claim(self, name, c, hint=None):
        """c must hold on this path for every value of the inputs"""
        if isinstance(c, np.ndarray):
            if isO(c):
                c = s_and(*list(c.flat))
            else:
                c = bool(np.all(c))
        if isinstance(c, SBool) and c.known() is not None:
            c = c.known()
        def first():
            f0 = self._nice()
            if core.TOKENS[0] or symnp.ROUND32[0]:
                t = [core.p_z3(s.n) for s in (core.TOKTAB[:40] if core.TOKENS[0] else self.inputs.values()) if type(s) is Sym and not s.d and not s.is_int and not s.is_const()]
                t = [z3.IsInt(x - z3.Q(4545454, 10000000)) for x in t]
                f0 = [f + t for f in f0] + [f + t[:1] for f in f0] + f0 if t else f0
            if isinstance(hint, SBool):
                return [f + [hint.z] for f in f0] + [[hint.z]] + f0
            return f0
        z = c.z if isinstance(c, SBool) else bool(c)
        r, m = self.eng.prove(z, first)
        if r == 'sat':
            self.job.candidate(self, name, m)
        elif r == 'unknown':
            self.job.inconclusive(name, 'solver returned unknown')

    def eq(self, name, a, b, tol=1e-6, exact=False):
        """elementwise equality over the reals (coefficient rounding 1e-9)"""
        a2, b2 = _objarr(a), _objarr(b)
        if a2.shape != b2.shape:
            self.claim(name + ':shape %s vs %s' % (a2.shape, b2.shape), False)
            return
        cs = []
        hints = []
        for x, y in zip(a2.flat, b2.flat):
            c, h = _eq1(x, y)
            if c is not True:
                cs.append(c)
                if h is not None:
                    hints.append(h)
        if not cs:
            self.eng.stats['claims'] += 1
            self.eng.stats['trivially'] += 1
            return
        self.claim(name, s_and(*cs), hint=s_or(*hints) if hints else None)

    def same(self, name, a, b):
        """equality of discrete (fully decided) data"""
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape:
            self.claim(name + ':shape %s vs %s' % (a.shape, b.shape), False)
            return
        self.claim(name, s_and(*[_same1(x, y) for x, y in zip(a.flat, b.flat)]) if a.size else True)

    def observe(self, name, v):
        self.observed.append((name, v))

    def reach(self):
        """the harness body reached its final assertions"""
        self.job.reached += 1

    def sym_min(self, xs):
        return symnp.S.min(symnp.arr(xs))


def _same1(x, y):
    if isinstance(x, Atom) and isinstance(y, Atom):
        return x.v == y.v
    if isinstance(x, Atom) or isinstance(y, Atom):
        return False
    if isinstance(x, SBool) or isinstance(y, SBool):
        zx, zy = core.as_z(x), core.as_z(y)
        if zx is not None and zy is not None:
            return SBool(zx == zy)
    if isinstance(x, (Sym, SBool)) or isinstance(y, (Sym, SBool)):
        c, _ = _eq1(x, y)
        return c
    if isinstance(x, float) and isinstance(y, float) and x != x and y != y:
        return True
    r = x == y
    return bool(r)


def _objarr(a):
    if isinstance(a, (Sym, SBool, Atom)):
        o = np.empty((), dtype=object)
        o[()] = a
        return o
    return np.asarray(a, dtype=object)


def _eq1(x, y):
    """-> (condition, hint)"""
    if isinstance(x, Atom) or isinstance(y, Atom):
        return _same1(x, y), None
    x, y = lift(x), lift(y)
    if x is NotImplemented or y is NotImplemented:
        return False, None
    if type(x) is float or type(y) is float:
        if type(x) is float and type(y) is float:
            return (x == y or (x != x and y != y)), None
        return False, None
    d = core.s_add(x, -y)
    n = d.n
    if not n:
        return True, None
    # drop coefficients that are pure rounding noise
    mx = max([abs(c) for c in x.n.values()] + [abs(c) for c in y.n.values()] + [Fraction(1, 10**6)])
    if not d.d:
        n2 = {m: c for m, c in n.items() if abs(c) > mx * Fraction(1, 10**9)}
    else:
        xn = core.s_mul(x, const(1))
        big = max(abs(c) for c in _common_num(x, y, d))
        n2 = {m: c for m, c in n.items() if abs(c) > big * Fraction(1, 10**9)}
    if not n2:
        return True, None
    dd = Sym(n2, d.d)
    if dd.is_const():
        return dd.const() == 0, None
    c = SBool(core.sign_formula('eq', dd))
    h = SBool(z3.Or(core.sign_formula('gt', core.s_add(dd, const(Fraction(-1, 100)))),
                    core.sign_formula('lt', core.s_add(dd, const(Fraction(1, 100))))))
    return c, h


def _common_num(x, y, d):
    out = [c for c in x.n.values()] + [c for c in y.n.values()] + [Fraction(1, 10**6)]
    # scale of numerator products: multiply by the largest denominator coefficient
    s = Fraction(1)
    for k, e in d.d:
        s = max(s, max(abs(c) for _, c in k) ** e)
    return [c * s for c in out]


class ConcEnv(EnvBase):
    """same API, plain numpy values taken from a solver model"""
    symbolic = False

    def __init__(self, values, job=None):
        super().__init__()
        self.values = values
        self.failed = []
        self.used = {}
        self.reached = False

    def _get(self, name):
        v = self.values.get(name, 0)
        self.used[name] = v
        return v

    def _arr(self, name, shape, dtype):
        if shape is None:
            v = self._get(name)
            return float(v) if dtype is float else int(v)
        if isinstance(shape, int):
            shape = (shape,)
        out = np.zeros(shape, dtype=dtype)
        for n, ix in zip(_names(name, shape), np.ndindex(*shape)):
            out[ix] = float(self._get(n)) if dtype is float else int(self._get(n))
        return out

    def real(self, name, shape=None, lo=None, hi=None, pos=False):
        return self._arr(name, shape, float)

    def int(self, name, lo=None, hi=None, shape=None):
        return self._arr(name, shape, int)

    def bool(self, name, shape=None):
        if shape is None:
            return bool(int(self._get(name)) == 1)
        return self._arr(name, shape, int) == 1

    sbool = bool

    def choice(self, name, n):
        return int(self._get(name))

    def cint(self, name, lo, hi):
        return int(self._get(name))

    def atoms(self, name, n, distinct=False):
        vs = [int(self._get('%s_%d' % (name, i))) for i in range(n)]
        # order preserving names, shared across all atom groups
        return np.array(['n%08d' % (v + 10000000) for v in vs])

    perm = SymEnv.perm

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = bool(np.all(c))
        if not c:
            raise Skip()

    def claim(self, name, c, hint=None):
        if isinstance(c, np.ndarray):
            c = bool(np.all(c))
        if not c:
            self.failed.append(name)

    def eq(self, name, a, b, tol=1e-6, exact=False):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.failed.append('%s: shape %s vs %s' % (name, a.shape, b.shape))
            return
        try:
            a, b = a.astype(float), b.astype(float)
        except (TypeError, ValueError):
            self.same(name, a, b)
            return
        with np.errstate(all='ignore'):
            fin = np.isfinite(a) & np.isfinite(b)
            sc = np.maximum(1.0, np.maximum(np.abs(np.where(fin, a, 0)), np.abs(np.where(fin, b, 0))))
            ok = np.where(fin, np.abs(np.where(fin, a, 0) - np.where(fin, b, 0)) <= tol * sc,
                          (a == b) | (np.isnan(a) & np.isnan(b)))
        if not np.all(ok):
            self.failed.append('%s: got %s expected %s' % (name, _short(a), _short(b)))

    def same(self, name, a, b):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if a.shape != b.shape or not all(_same1(x, y) for x, y in zip(a.flat, b.flat)):
            self.failed.append('%s: got %s expected %s' % (name, _short(a), _short(b)))

    def observe(self, name, v):
        self.observed.append((name, v))

    def reach(self):
        self.reached = True

    def sym_min(self, xs):
        return min(xs)


def _short(a):
    return str(np.asarray(a).tolist())[:300]


# ----------------------------------------------------------------- patching
_MODS = [0, []]


def repo_modules(prefixes=('hyperion',)):
    if _MODS[0] != len(sys.modules):
        _MODS[1] = _repo_modules(prefixes)
        _MODS[0] = len(sys.modules)
    return _MODS[1]


def _repo_modules(prefixes):
    return [m for n, m in list(sys.modules.items())
            if m is not None and any(n == p or n.startswith(p + '.') for p in prefixes)]


def base_map():
    import math as _math
    mp = {id(np): symnp.S, id(sla): symnp.LA, id(np.linalg): symnp.NLA, id(_math): symnp.M,
          id(np.random): symnp.RND, id(np.fft): symnp.FFT}
    import six
    mp[id(six.string_types)] = (str, Atom)
    for n in dir(symnp.S):
        f = getattr(np, n, None)
        g = symnp.S.__dict__.get(n)
        if f is not None and g is not None and callable(f) and not isinstance(f, type):
            mp.setdefault(id(f), g)
    for n, g in symnp.LA.__dict__.items():
        f = getattr(sla, n, None)
        if f is not None and callable(f) and callable(g):
            mp.setdefault(id(f), g)
    for n, g in symnp.NLA.__dict__.items():
        f = getattr(np.linalg, n, None)
        if f is not None and callable(f) and callable(g):
            mp.setdefault(id(f), g)
    return mp


_BASE = None


@contextlib.contextmanager
def patched(extra=None, setattrs=(), casts=True, bool_obj=False, text=False, round32=False):
    """swap numpy & co. inside the modules of /repo for the symbolic facade"""
    global _BASE
    if _BASE is None:
        _BASE = base_map()
    mp = dict(_BASE)
    if extra:
        mp.update({id(k): v for k, v in extra})
    undo = []
    symnp.EIGH_HOOK[0] = None
    symnp.SVD_HOOK[0] = None
    symnp.BOOL_OBJ[0] = bool_obj
    symnp.ROUND32[0] = round32
    core.TOKENS[0] = text
    del core.TOKTAB[:]
    try:
        for m in repo_modules():
            d = m.__dict__
            for k, v in list(d.items()):
                r = mp.get(id(v))
                if r is not None and not k.startswith('__'):
                    undo.append((d, k, v))
                    d[k] = r
            if casts:
                for nm, cl in (('int', symnp.SInt_), ('float', symnp.SFloat), ('str', symnp.SStr)):
                    if nm not in d:
                        undo.append((d, nm, None))
                        d[nm] = cl
        for obj, name, val in setattrs:
            had = name in obj.__dict__ if hasattr(obj, '__dict__') else True
            old = obj.__dict__.get(name) if had else None
            undo.append((obj, name, old, had))
            setattr(obj, name, val)
        yield
    finally:
        symnp.EIGH_HOOK[0] = None
        symnp.SVD_HOOK[0] = None
        core.TOKENS[0] = False
        for u in reversed(undo):
            if len(u) == 3:
                d, k, v = u
                if v is None and k in ('int', 'float', 'str'):
                    d.pop(k, None)
                else:
                    d[k] = v
            else:
                obj, name, old, had = u
                if had:
                    setattr(obj, name, old)
                else:
                    delattr(obj, name)


# ----------------------------------------------------------------- job
def model_values(model, inputs):
    """solver model -> exact values of the inputs"""
    out = {}
    for name, s in inputs.items():
        g = core.REG.by_key[('in', name)]
        v = model.eval(g.z, model_completion=True)
        out[name] = _zval(v)
    return out


def _zval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return 0


def enc_vals(vals):
    return {k: (v if isinstance(v, int) else '%d/%d' % (v.numerator, v.denominator)) for k, v in vals.items()}


def dec_vals(vals):
    return {k: (v if isinstance(v, int) else Fraction(v)) for k, v in vals.items()}


class Job(object):
    def __init__(self, h, cfg, deadline, validate=4, max_paths=200000, seed=1):
        self.h, self.cfg, self.deadline = h, cfg, deadline
        self.validate = validate
        self.max_paths = max_paths
        self.violations = []
        self.unreproduced = []
        self.incon = {}
        self.reached = 0
        self.validated = 0
        self.validation_mismatch = []
        self.fallback = 0
        self.looks = 0
        self.funcs = set()
        self.done = False
        self.seed = seed
        self.samples = []

    def inconclusive(self, name, why):
        k = '%s: %s' % (name, why)
        self.incon[k] = self.incon.get(k, 0) + 1

    def concrete(self, vals):
        """run the harness on the unpatched code -> (failed claims, env) or None if assumptions fail"""
        env = ConcEnv(vals)
        try:
            with np.errstate(all='ignore'):
                self.h.fn(env, **self.cfg)
        except Skip:
            return None, env
        except (KeyboardInterrupt, core.Deadline):
            raise
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [t for t in tb if t.filename.startswith(REPO)]
            if isinstance(e, ModuleNotFoundError) and not where:
                raise
            loc = '%s:%d' % (where[-1].filename, where[-1].lineno) if where else \
                '%s:%d' % (tb[-1].filename, tb[-1].lineno)
            env.failed.append('raised %s: %s at %s' % (type(e).__name__, str(e)[:200], loc))
            env.in_repo = bool(where)
        return env.failed, env

    def candidate(self, env, claim, model):
        vals = model_values(model, env.inputs)
        self.pending = vals, claim          # replayed once the real numpy is back
        raise core.CandidateFound()

    def try_vals(self, vals, claim):
        failed, cenv = self.concrete(vals)
        rec = dict(harness=self.h.name, cfg=self.cfg, claim=claim, inputs=enc_vals(vals),
                   observed=failed)
        if failed:
            self.violations.append(rec)
            return True
        if len(self.unreproduced) < 20:
            self.unreproduced.append(rec)
        self.inconclusive(claim, 'counterexample does not reproduce on the real code')
        return False

    def run(self):
        h = self.h
        core.reset_registry()
        eng = core.Engine(deadline=self.deadline, **h.opts.get('engine', {}))
        core.ENG = eng
        self.eng = eng
        rnd = random.Random(self.seed)
        t0 = time.time()
        patch = h.opts.get('patch')
        npaths = 0
        mon = sys.monitoring        # functions of the repository that the paths execute
        mon.use_tool_id(mon.PROFILER_ID, 'symx')
        mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, self._start)
        mon.restart_events()
        try:
            while eng.work:
                if npaths >= self.max_paths:
                    self.inconclusive('exploration', 'path limit')
                    break
                prefix = eng.work.pop()
                eng.reset_path(prefix)
                env = SymEnv(eng, self)
                status = self.run_path(env, patch)
                npaths += 1
                if status != 'infeasible':
                    eng.stats['paths'] += 1
                # cross validation of the encoding
                if status == 'ok' and (self.validated < self.validate or rnd.random() < 0.02) \
                        and self.validated < 40:
                    self.cross_validate(env)
                if status == 'unsupported':
                    self.concolic(env)
                if status == 'candidate' and not self.violations and self.looks < 12:
                    self.look_again(env)
                if len(self.violations) >= 1:
                    break
            else:
                self.done = True
        except core.Deadline:
            self.inconclusive('exploration', 'time budget exhausted')
        finally:
            core.ENG = None
            mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, None)
            mon.free_tool_id(mon.PROFILER_ID)
        self.wall = time.time() - t0
        return self

    def run_path(self, env, patch):
        eng = self.eng
        ctx = dict(extra=None, setattrs=(), bool_obj=self.h.opts.get('bool_obj', False),
                   text=self.h.opts.get('text', False), round32=self.h.opts.get('round32', False))
        if patch is not None:
            ctx.update(patch(env) or {})
        old = None
        try:
            with patched(**ctx):
                mon = sys.monitoring
                mon.set_events(mon.PROFILER_ID, mon.events.PY_START)
                try:
                    self.h.fn(env, **self.cfg)
                finally:
                    mon.set_events(mon.PROFILER_ID, 0)
            return 'ok'
        except core.StopPath:
            eng.stats['infeasible'] += 1
            return 'infeasible'
        except core.CandidateFound:
            self.try_vals(*self.pending)
            return 'candidate'
        except core.Deadline:
            raise
        except core.Unsupported as e:
            self._unsup(e)
            return 'unsupported'
        except RecursionError as e:
            self._unsup(e)
            return 'unsupported'
        except (Exception, SystemExit) as e:
            # either the real code fails on this path or the facade cannot cope
            r = eng._check(*[c for f in env._nice() for c in f])
            if r != z3.sat:
                r = eng._check()
            if r == z3.unsat:
                eng.stats['infeasible'] += 1
                return 'infeasible'
            if os.environ.get('SYMX_DEBUG'):
                traceback.print_exc()
            if r == z3.sat:
                vals = model_values(eng._last_model, env.inputs)
                failed, _ = self.concrete(vals)
                if failed:
                    self.violations.append(dict(harness=self.h.name, cfg=self.cfg,
                                                claim='no exception', inputs=enc_vals(vals),
                                                observed=failed))
                    return 'candidate'
            self._unsup(e)
            return 'unsupported'

    def _unsup(self, e):
        self.eng.stats['unsupported'] += 1
        k = '%s: %s' % (type(e).__name__, str(e)[:160])
        if os.environ.get('SYMX_DEBUG'):
            traceback.print_exc()
        self.eng.unsupported_msgs[k] = self.eng.unsupported_msgs.get(k, 0) + 1
        self.inconclusive('path', 'not encodable (%s)' % k)

    def concolic(self, env):
        """path that could not be encoded: at least run the solver's witness for it"""
        eng = self.eng
        if self.fallback > 400:
            return
        cons = env._nice()
        r = eng._check(*[c for f in cons for c in f])
        if r != z3.sat:
            r = eng._check()
        if r != z3.sat:
            return
        self.fallback += 1
        # several solver witnesses of the same path
        tries = [model_values(eng._last_model, env.inputs)]
        rnd = random.Random(self.fallback)
        for _ in range(6):
            m = self.spread_model(env, rnd)
            if m is None:
                break
            tries.append(model_values(m, env.inputs))
        for v in tries:
            failed, _ = self.concrete(v)
            if failed:
                self.violations.append(dict(harness=self.h.name, cfg=self.cfg, claim='concolic fallback',
                                            inputs=enc_vals(v), observed=failed))
                return

    def look_again(self, env):
        """the counterexample was not one in floating point: other witnesses of the path"""
        self.looks += 1
        rnd = random.Random(100 + self.looks)
        for _ in range(4):
            m = self.spread_model(env, rnd)
            if m is None:
                return
            v = model_values(m, env.inputs)
            failed, _ = self.concrete(v)
            if failed:
                self.violations.append(dict(harness=self.h.name, cfg=self.cfg, claim=failed[0], inputs=enc_vals(v), observed=failed))
                return

    def spread_model(self, env, rnd):
        eng = self.eng
        ex = env._spread(rnd)
        if not ex:
            return None
        for frac in (1, 2, 4):
            rnd.shuffle(ex)
            cons = ex[:max(1, len(ex) // frac)] + ([c for f in env._nice() for c in f] if frac > 1 else [])
            if eng._check(*cons, timeout=1000) == z3.sat:
                return eng._last_model
        return None

    def cross_validate(self, env):
        eng = self.eng
        m = self.spread_model(env, random.Random(self.validated))
        nice = True
        if m is None:
            cons = [c for f in env._nice() for c in f]
            r = eng._check(*cons, timeout=2000)
            if r == z3.sat:
                m = eng._last_model
        if m is None:
            nice = False
            r = eng._check(timeout=2000)
            if r != z3.sat:
                return
            m = eng._last_model
        vals = model_values(m, env.inputs)
        failed, cenv = self.concrete(vals)
        if failed is None:
            return
        self.validated += 1
        if len(self.samples) < 3:
            self.samples.append(dict(harness=self.h.name, cfg=self.cfg, inputs=enc_vals(vals)))
        if failed and not nice:
            # badly scaled witness: could be floating point rounding only
            self.inconclusive('path witness', 'badly scaled witness disagrees: %s' % failed[0][:200])
            return
        if failed:
            # the symbolic run proved this path, the real code disagrees: real code wins
            self.violations.append(dict(harness=self.h.name, cfg=self.cfg, claim='path witness',
                                        inputs=enc_vals(vals), observed=failed))
            return
        # observed outputs: symbolic value under the model == concrete value
        if len(env.observed) != len(cenv.observed):
            self.validation_mismatch.append('observed lengths differ')
            return
        for (n1, a), (n2, b) in zip(env.observed, cenv.observed):
            try:
                fa = [float(eval_sym(x, vals)) for x in np.asarray(_objarr(a)).flat]
                fb = [float(x) for x in np.asarray(b, dtype=object).flat]
            except (TypeError, ValueError, KeyError, ZeroDivisionError, OverflowError):
                continue
            for x, y in zip(fa, fb):
                if x != x and y != y:
                    continue
                if not (abs(x - y) <= 1e-5 * max(1.0, abs(x), abs(y)) or x == y):
                    self.validation_mismatch.append('%s: symbolic %r concrete %r at %r' % (n1, x, y, enc_vals(vals)))
                    return

    def _start(self, code, offset):
        fn = code.co_filename
        if fn.startswith(REPO + '/'):
            self.funcs.add('%s:%s' % (fn[len(REPO) + 1:], code.co_qualname))
        return sys.monitoring.DISABLE

    def summary(self):
        st = self.eng.stats
        return dict(harness=self.h.name, cfg=self.cfg, stats=st, violations=self.violations,
                    unreproduced=self.unreproduced, incon=self.incon, reached=self.reached,
                    validated=self.validated, mismatch=self.validation_mismatch[:3],
                    funcs=sorted(self.funcs), done=self.done, wall=self.wall, fallback=self.fallback,
                    samples=self.samples, nsyms=sum(1 for g in core.REG.gens if g.kind == 'in'),
                    unsupported=self.eng.unsupported_msgs)


def eval_sym(x, vals, cache=None):
    """evaluate a symbolic value numerically at the given inputs"""
    if isinstance(x, SBool):
        raise TypeError
    if not isinstance(x, Sym):
        return x
    cache = {} if cache is None else cache

    def gv(gid):
        if gid in cache:
            return cache[gid]
        g = core.REG.gens[gid]
        if g.kind == 'in':
            v = float(vals[g.name])
        elif g.kind == 'sqrt':
            v = math.sqrt(max(pv(g.data), 0.0))
        elif g.kind == 'log':
            v = math.log(pv(g.data))
        elif g.kind == 'exp':
            v = math.exp(eval_sym(g.data, vals, cache))
        elif g.kind == 'floor':
            v = math.floor(eval_sym(g.data, vals, cache))
        else:
            raise TypeError
        cache[gid] = v
        return v

    def pv(p):
        t = 0.0
        for m, c in p.items():
            w = float(c)
            for g, e in m:
                w *= gv(g) ** e
            t += w
        return t
    n = pv(x.n)
    for k, e in x.d:
        n /= pv(dict(k)) ** e
    return n
