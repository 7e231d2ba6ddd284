"""helpers shared by the harnesses (oracle side arithmetic)"""
import itertools
import numpy as np
from . import core, symnp
from .symnp import isO, SymArray


def wrap(a):
    a = np.asarray(a)
    return a.view(SymArray) if isO(a) else a


def sexp(E, x):
    if not E.symbolic:
        return np.exp(x)
    old, core.ENG.exp_overflow = core.ENG.exp_overflow, False
    try:
        return symnp.S.exp(x)
    finally:
        core.ENG.exp_overflow = old


def slog(E, x):
    return symnp.S.log(x) if E.symbolic else np.log(x)


def ssqrt(E, x):
    return symnp.S.sqrt(x) if E.symbolic else np.sqrt(x)


def zeros(E, shape):
    if E.symbolic:
        a = np.empty(shape, dtype=object)
        a.fill(0)
        return a.view(SymArray)
    return np.zeros(shape)


def array(E, v):
    if E.symbolic:
        return np.array(v, dtype=object).view(SymArray)
    return np.array(v)


def spd(E, name, d):
    """arbitrary symmetric positive definite matrix L L^T, and L"""
    L = zeros(E, (d, d))
    for i in range(d):
        for j in range(i + 1):
            L[i, j] = E.real('%s_%d_%d' % (name, i, j), pos=(i == j))
    return wrap(np.asarray(L).dot(np.asarray(L).T)), L


def sym(E, name, d):
    A = zeros(E, (d, d))
    for i in range(d):
        for j in range(i + 1):
            A[i, j] = A[j, i] = E.real('%s_%d_%d' % (name, i, j))
    return A


def index(xs, x):
    """position of x in xs (None if absent)"""
    for i, v in enumerate(xs):
        if v == x:
            return i
    return None


def det(A):
    return symnp.det_poly(np.asarray(A, dtype=object))


def inv(A):
    """inverse by cofactors (independent of the code under test)"""
    A = np.asarray(A, dtype=object)
    n = A.shape[0]
    d = det(A)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(A, j, 0), i, 1)
            out[i, j] = ((-1) ** (i + j)) * (det(m) if n > 1 else 1) / d
    return out


def rotation(E, name, d):
    """any rotation of the plane (Cayley parameter), or of the line; d=3: any rotation about one axis after another"""
    R = zeros(E, (d, d))
    for i in range(d):
        R[i, i] = 1
    R = np.asarray(R)
    for k, (i, j) in enumerate([(0, 1)] if d == 2 else [(0, 1), (1, 2)][:d - 1]):
        t = E.real('%s_t%d' % (name, k), lo=-20, hi=20)
        c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
        G = np.array(zeros(E, (d, d)))
        for m in range(d):
            G[m, m] = 1
        G[i, i], G[i, j], G[j, i], G[j, j] = c, -s, s, c
        R = R.dot(G)
    return wrap(R)


def eigen(E, name, d, lo=None, hi=None, pos=False):
    """symmetric matrix with known eigenvectors and eigenvalues: A, V, w"""
    w = [E.real('%s_w%d' % (name, i), lo=lo, hi=hi, pos=pos) for i in range(d)]
    V = np.asarray(rotation(E, name, d))
    A = wrap(V.dot(np.diag(np.array(w, dtype=object if E.symbolic else float))).dot(V.T))
    if E.symbolic:
        symnp.EIGS.append((np.asarray(A), None, V, w))
    return A, wrap(V), w


def gen_eigen(E, name, d, lo=None, hi=None, pos=False):
    """A symmetric, B positive definite with known generalized eigenvectors: A V = B V diag(w), V^T B V = I"""
    w = [E.real('%s_w%d' % (name, i), lo=lo, hi=hi, pos=pos) for i in range(d)]
    R = np.asarray(rotation(E, name, d))
    B, L = spd(E, name + '_B', d)
    L = np.asarray(L)
    W = np.diag(np.array(w, dtype=object if E.symbolic else float))
    A = wrap(L.dot(R).dot(W).dot(R.T).dot(L.T))
    V = (np.asarray(inv(L)).T.dot(R)) if E.symbolic else np.linalg.inv(L).T.dot(R)
    if E.symbolic:
        symnp.EIGS.append((np.asarray(A), np.asarray(B), V, w))
        C = R.dot(W).dot(R.T)
        symnp.EIGS.append((C, None, R, w))
    return A, B, wrap(V), w


def lfilter_model(b, a, x, axis=-1, zi=None):
    """direct form difference equation; a[0] = 1"""
    b, a = [v for v in b], [v for v in a]
    k = max(len(b), len(a)) - 1
    b, a = b + [0] * (k + 1 - len(b)), a + [0] * (k + 1 - len(a))
    z = list(zi) if zi is not None else [0] * k
    y = []
    for v in x:
        o = b[0] * v + (z[0] if k else 0)
        for i in range(k - 1):
            z[i] = b[i + 1] * v + z[i + 1] - a[i + 1] * o
        if k:
            z[k - 1] = b[k] * v - a[k] * o
        y.append(o)
    y = wrap(np.array(y, dtype=object))
    return y if zi is None else (y, wrap(np.array(z, dtype=object)))
