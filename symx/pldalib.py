"""PLDA models with symbolic parameters, and their covariances"""
import numpy as np
from . import core
from .util import zeros, wrap, array, inv, det, sym


def _o(a):
    return np.asarray(a)


def pd(E, name, d):
    """any symmetric positive definite matrix, given by its entries"""
    A = zeros(E, (d, d))
    for i in range(d):
        for j in range(i + 1):
            A[i, j] = A[j, i] = E.real('%s_%d_%d' % (name, i, j), lo=0.05 if i == j else -4, hi=8)
    if d == 2:
        E.assume(A[0, 0] * A[1, 1] - A[0, 1] * A[0, 1] > 0.01)
    return A


def ginv(E, A):
    return wrap(inv(A)) if E.symbolic else np.linalg.inv(A)


def gdet(E, A):
    return det(A) if E.symbolic else np.linalg.det(A)


class Model(object):
    pass


def plda(E, kind, d, y=1, z=1, **kw):
    from hyperion.pdfs.plda import FRPLDA, SPLDA, PLDA
    o = Model()
    o.mu = E.real('mu', d, lo=-3, hi=3)
    o.kind = kind
    if kind == 'fr':
        o.B, o.W = pd(E, 'B', d), pd(E, 'W', d)
        o.Sb, o.Sw = ginv(E, o.B), ginv(E, o.W)
        o.m = FRPLDA(mu=o.mu, B=o.B, W=o.W, **kw)
        o.par = dict(mu=o.mu, B=o.B, W=o.W)
    elif kind == 's':
        o.V, o.W = E.real('V', (y, d), lo=-3, hi=3), pd(E, 'W', d)
        o.Sb, o.Sw = wrap(_o(o.V).T.dot(_o(o.V))), ginv(E, o.W)
        o.m = SPLDA(mu=o.mu, V=o.V, W=o.W, **kw)
        o.par = dict(mu=o.mu, V=o.V, W=o.W)
    else:
        o.V, o.U = E.real('V', (y, d), lo=-3, hi=3), E.real('U', (z, d), lo=-3, hi=3)
        o.D = E.real('D', d, lo=0.1, hi=8)
        o.Sb = wrap(_o(o.V).T.dot(_o(o.V)))
        S = _o(o.U).T.dot(_o(o.U))
        for i in range(d):
            S[i, i] = S[i, i] + 1 / o.D[i]
        o.Sw = wrap(S)
        o.m = PLDA(mu=o.mu, V=o.V, U=o.U, D=o.D, **kw)
        o.par = dict(mu=o.mu, V=o.V, U=o.U, D=o.D)
    return o


def quad(E, x, S):
    """x^T S^-1 x and det S"""
    x = _o(x)
    i = _o(ginv(E, S))
    return x.dot(i).dot(x), gdet(E, S)
