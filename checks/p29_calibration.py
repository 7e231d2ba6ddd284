"""Gaussian calibration: estimation, log likelihood ratios, persistence, unsupervised training"""
import contextlib
import numpy as np
from symx.harness import harness, s_and, s_or
from symx.util import array, slog, sexp
from symx.fakeh5 import patch_h5
from hyperion.calibration.gauss_calibration import GaussCalibration
from hyperion.calibration.unsup_gauss_calibration import UnsupGaussCalibration
from hyperion.pdfs.mixtures import GMMTiedDiagCov
from hyperion.pdfs.mixtures.exp_family_mixture import ExpFamilyMixture

TOL = 1e-5


def llr(x, m1, m2, s2):
    return ((x - m2) ** 2 - (x - m1) ** 2) / (2 * s2)


@harness('P29', configs=[dict(n=n, given=g) for n in (1, 3) for g in (0, 1)], bounds='up to 3 scores')
def predict(E, n, given):
    m1, m2, s2 = E.real('m1', lo=-5, hi=5), E.real('m2', lo=-5, hi=5), E.real('s2', lo=0.1, hi=5)
    x = E.real('x', n, lo=-10, hi=10)
    c = GaussCalibration(mu1=m1, mu2=m2, sigma2=s2, prior=0.3)
    old = x.copy()
    y = c.predict(x)
    E.reach()
    E.same('input', x, old)
    E.eq('llr', y, array(E, [llr(x[i], m1, m2, s2) for i in range(n)]), TOL)
    E.eq('prior', c.prior, 0.3)


@harness('P29', configs=[dict(n=n, w=w, refit=r) for n in (3, 4) for w in (0, 1) for r in (0, 1) if n < 4 or not r], bounds='up to 4 scores, any labels with both classes present')
def fit(E, n, w, refit):
    x = E.real('x', n, lo=-10, hi=10)
    y = np.array([1 if E.bool('y%d' % i) else 0 for i in range(n)])
    E.assume(0 < int(np.sum(y)) < n)
    sw = E.real('w', n, lo=0.1, hi=3) if w else None
    T, N = [i for i in range(n) if y[i] == 1], [i for i in range(n) if y[i] == 0]
    g = sw if w else [1] * n
    sT, sN = sum(g[i] for i in T), sum(g[i] for i in N)
    m1 = sum(g[i] * x[i] for i in T) / sT
    m2 = sum(g[i] * x[i] for i in N) / sN
    s2 = (sum(g[i] * (x[i] - m1) ** 2 for i in T) + sum(g[i] * (x[i] - m2) ** 2 for i in N)) / (sT + sN)
    E.assume(s2 > 0.01)
    c = GaussCalibration()
    if refit:
        c = GaussCalibration(mu1=E.real('q1', lo=-5, hi=5), mu2=E.real('q2', lo=-5, hi=5), sigma2=E.real('q3', lo=0.1, hi=5))
    ox, ow = x.copy(), None if sw is None else sw.copy()
    c.fit(x, y, sample_weight=sw)
    E.reach()
    E.same('x', x, ox)
    if w:
        E.same('weights', sw, ow)
    E.eq('mu1', c.mu1, m1, TOL)
    E.eq('mu2', c.mu2, m2, TOL)
    E.eq('sigma2', c.sigma2, s2, TOL)
    E.eq('prior', c.prior, sT / (sT + sN), TOL)
    z = E.real('z', 1, lo=-10, hi=10)
    E.eq('scores', c.predict(z)[0] * 2 * c.sigma2, llr(z[0], m1, m2, s2) * 2 * s2, 1e-4)


@harness('P29', configs=[dict(kind=k, name=n, init=i) for k in 'gu' for n in (None, 'x') for i in (0, 1)], patch=patch_h5, bounds='named and unnamed models, set or not')
def save(E, kind, name, init):
    cls = GaussCalibration if kind == 'g' else UnsupGaussCalibration
    p = E.real('p', lo=0.01, hi=0.99)
    kw = dict(prior=0.25, name=name)
    if init:
        kw.update(mu1=E.real('m1', lo=-5, hi=5), mu2=E.real('m2', lo=-5, hi=5), sigma2=E.real('s2', lo=0.1, hi=5))
    c = cls(**kw)
    fp = E.tmp('cal.h5')
    c.save(fp)
    d = cls.load(fp)
    E.reach()
    E.claim('class', type(d) is cls)
    E.claim('name', d.name == name)
    E.eq('prior', d.prior, 0.25, TOL)
    E.claim('init', d.is_init() == bool(init))
    if init:
        x = E.real('x', 2, lo=-10, hi=10)
        E.eq('same scores', d.predict(x) * kw['sigma2'], c.predict(x) * kw['sigma2'], 1e-4)


def any_training(env):
    """training as a function of the starting point, the data and the epochs (P24 decides what the training does)"""
    def f(self, x, sample_weight=None, epochs=10, **k):
        w = 1 if sample_weight is None else 2
        t = np.sum(x)
        g = type(self)(mu=self.mu * 3 + t * w, Lambda=self.Lambda * 5 + self.Lambda ** 2 * epochs, pi=self.pi ** 2 + 1 / 8)
        self.__dict__.update(g.__dict__)
    return dict(extra=[], setattrs=[(ExpFamilyMixture, 'fit', f)])


@harness('P29', configs=[dict(d2=d, init=i) for d in (0, 1) for i in (0, 1)], patch=any_training, bounds='2 scores',
         assumptions=['in the symbolic runs the training of the mixture is a fixed function of its start, data and iterations (P24 decides the training); the replays run the real one'])
def unsup(E, d2, init):
    """training is that of a two component mixture with a tied variance started at the model, or at the maximum and mean of the scores"""
    x = array(E, [-1.0, 2.0])
    if init:
        p = E.real('p', lo=0.1, hi=0.9)
        m1, m2, s2 = E.real('m1', lo=0.5, hi=5), E.real('m2', lo=-5, hi=-0.5), 2.0
        c = UnsupGaussCalibration(mu1=m1, mu2=m2, sigma2=s2, prior=p)
    else:
        x = E.real('x', 2, lo=-3, hi=3)
        E.assume(x[0] > x[1] + 1)
        p = 0.25
        c = UnsupGaussCalibration(init_prior=p)
        m1, m2 = x[0], (x[0] + x[1]) / 2
        s2 = ((x[0] - m2) ** 2 + (x[1] - m2) ** 2) / 2
    old = x.copy()
    c.fit(x[:, None] if d2 else x)
    g = GMMTiedDiagCov(mu=array(E, [[m1], [m2]]), Lambda=array(E, [1 / s2]), pi=array(E, [p, 1 - p]))
    g.fit(x[:, None], epochs=20)
    E.reach()
    E.same('x', x, old)
    E.eq('mu1', c.mu1, g.mu[0, 0], TOL)
    E.eq('mu2', c.mu2, g.mu[1, 0], TOL)
    E.eq('sigma2', c.sigma2 * g.Lambda[0], 1.0, TOL)
    E.eq('prior', c.prior, g.pi[0], TOL)
    z = E.real('z', 1, lo=-3, hi=3)
    E.eq('scores', c.predict(z)[0] * c.sigma2 * 2, llr(z[0], c.mu1, c.mu2, c.sigma2) * c.sigma2 * 2, 1e-4)
