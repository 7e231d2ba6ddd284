"""short time Fourier transforms, filter banks, windows and the MFCC pipeline"""
import argparse
import math
import sys
import numpy as np
import scipy.signal
import scipy.fftpack
import scipy.fft
from symx import symnp
from symx.harness import harness, s_and, s_or
from symx.util import slog, sexp, ssqrt, wrap, lfilter_model
import hyperion.feats.stft
from hyperion.feats.mfcc import MFCC
from hyperion.feats.filter_banks import FilterBankFactory as FBF
from hyperion.feats.feature_windows import FeatureWindowFactory as FWF
ST = sys.modules['hyperion.feats.stft']


def patch(env):
    ex = [(scipy.signal.lfilter, lfilter_model), (scipy.fftpack.dct, symnp.dct_ortho), (scipy.fft.dct, symnp.dct_ortho)]
    for n in ('fft', 'ifft', 'rfft', 'irfft'):
        ex += [(getattr(np.fft, n), getattr(symnp.FFT, n)), (getattr(scipy.fft, n), getattr(symnp.FFT, n))]
    return dict(extra=ex)


def re(E, a):
    return symnp.S.real(a) if E.symbolic else np.real(a)


def im(E, a):
    return symnp.S.imag(a) if E.symbolic else np.imag(a)


def dft(x, n, k):
    """-> (re, im) of one bin, zero padded to n (or cut)"""
    r = i = 0
    for t, v in enumerate(list(x)[:n]):
        c, s = math.cos(2 * math.pi * (k * t % n) / n), math.sin(2 * math.pi * (k * t % n) / n)
        c, s = [0.0 if abs(q) < 1e-15 else math.copysign(1.0, q) if abs(abs(q) - 1) < 1e-15 else q for q in (c, s)]
        r, i = r + v * c, i - v * s
    return r, i


def eqc(E, name, X, R, I, tol=1e-4):
    E.eq(name + ' (real)', re(E, X), R, tol=tol)
    E.eq(name + ' (imaginary)', im(E, X), I, tol=tol)


def oarr(E, v, shape):
    a = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        e = v
        for i in ix:
            e = e[i]
        a[ix] = e
    return wrap(a) if E.symbolic else a.astype(float)


SIZES = [dict(n=n, L=L, S=S, N=N) for n, L, S, N in
         [(4, 4, 2, 4), (5, 4, 2, 4), (8, 4, 2, 4), (6, 3, 1, 4), (7, 2, 3, 4), (8, 6, 2, 8), (3, 4, 2, 4), (2, 2, 2, 2), (1, 4, 2, 4)]]


@harness('P35', configs=[dict(c, real=r, win=w) for c in SIZES for r in (False, True) for w in (False, True)],
         thorough=[dict(n=n, L=L, S=S, N=N, real=r, win=True) for r in (False, True) for n, L, S, N in
                   [(12, 8, 4, 8), (11, 6, 3, 8), (16, 8, 8, 16), (9, 3, 2, 8)]],
         bounds='up to 8 samples (thorough 16), frames of up to 6 (8), transforms of up to 8 (16) points', patch=patch)
def transform(E, n, L, S, N, real, win):
    x = E.real('x', (n,), lo=-10, hi=10)
    w = E.real('w', (L,), lo=-2, hi=2) if win else None
    x0 = x.copy()
    X = (ST.strft if real else ST.stft)(x, L, S, N, w)
    E.reach()
    E.same('input', x, x0)
    frames = [i for i in range(n) if i * S + L <= n]
    K = N // 2 + 1 if real else N
    E.claim('one row per frame that fits', X.shape == (len(frames), K))
    if not frames:
        return
    R = [[dft([x[i * S + t] * (w[t] if win else 1) for t in range(L)], N, k) for k in range(K)] for i in frames]
    eqc(E, 'frame transform', X, oarr(E, [[c[0] for c in r] for r in R], X.shape), oarr(E, [[c[1] for c in r] for r in R], X.shape))


@harness('P35', configs=[dict(c, real=r, win=w) for c in SIZES if c['n'] >= c['L'] and c['L'] >= c['S'] and c['n'] < 8 or c['L'] == 6
                         for r in (False, True) for w in (False, True)],
         bounds='up to 8 samples, frames of up to 6, transforms of up to 8 points, positive windows', patch=patch)
def inverse(E, n, L, S, N, real, win):
    """overlap-add inverse of the windowed transform"""
    x = E.real('x', (n,), lo=-10, hi=10)
    w = E.real('w', (L,), lo=0.25, hi=2) if win else None
    X = (ST.strft if real else ST.stft)(x, L, S, N, w)
    y = (ST.istrft if real else ST.istft)(X, L, S, w)
    E.reach()
    m = (X.shape[0] - 1) * S + L
    E.claim('samples covered by the frames', y.shape == (m,))
    eqc(E, 'signal', y, x[:m], np.zeros(m))


@harness('P35', configs=[dict(real=False), dict(real=True)], bounds='8 samples, 3 frames of 4, window with zeros', patch=patch)
def inverse_zero_window(E, real):
    """samples no window covers come back as zero, the others are recovered"""
    x = E.real('x', (8,), lo=-10, hi=10)
    a, b = E.real('a', lo=0.25, hi=2), E.real('b', lo=0.25, hi=2)
    w = np.array([0, a, b, 0], dtype=object if E.symbolic else float)
    w = wrap(w)
    X = (ST.strft if real else ST.stft)(x, 4, 2, 4, w)
    y = (ST.istrft if real else ST.istft)(X, 4, 2, w)
    E.reach()
    e = x.copy()
    e[0] = 0
    e[7] = 0
    eqc(E, 'signal', y, e, np.zeros(8))


@harness('P35', configs=[dict(n=n, L=L, S=S) for n, L, S in [(4, 2, 1), (5, 3, 2), (7, 3, 3), (6, 6, 2), (3, 4, 2)]], bounds='up to 7 samples', patch=patch)
def frame_energy(E, n, L, S):
    x = E.real('x', (n,), lo=-10, hi=10)
    e = ST.st_logE(x, L, S)
    E.reach()
    fr = [i for i in range(n) if i * S + L <= n]
    E.claim('one energy per frame', e.shape == (len(fr),))
    if fr:
        E.eq('log energy', e, oarr(E, [slog(E, sum(x[i * S + t] * x[i * S + t] for t in range(L)) + 1e-15) for i in fr], (len(fr),)))


# ---------------------------------------------------------------- filter banks
def nearest(E, f):
    """integer nearest to f (ties excluded), one path per value"""
    b = int(f + 0.5) if not E.symbolic else symnp.SInt_(symnp.S.floor(f + 0.5)).__index__()
    E.assume(f + 0.5 - b > 1e-6)
    E.assume(b + 0.5 - f > 1e-6)
    return b


def triangles(shape, bins):
    """piecewise linear weights of the given edges (integers)"""
    T = np.zeros(shape)
    for k in range(shape[1]):
        l, c, r = bins[k], bins[k + 1], bins[k + 2]
        for j in range(l, c + 1):
            T[j, k] = (j - l + 1) / (c - l + 1)
        for j in range(c + 1, r + 1):
            T[j, k] = (r - j + 1) / (r - c + 1)
    return T


@harness('P35', configs=[dict(nf=1, N=8, how=h) for h in ('abs', 'zero', 'neg')] + [dict(nf=2, N=8, how='abs'), dict(nf=2, N=8, how='neg')],
         thorough=[dict(nf=3, N=8, how='abs'), dict(nf=2, N=16, how='abs')],
         bounds='1-2 filters (thorough 3), transform of 8 points (16), every cutoff frequency', patch=patch)
def linear_bank(E, nf, N, how):
    fs = 1000
    lo = E.real('low', lo=0, hi=fs / 2)
    hi = E.real('high', lo=0, hi=fs / 2)
    E.assume(lo < hi)
    if how == 'zero':
        E.assume(hi == fs / 2)
    if how == 'neg':
        E.assume(hi < fs / 2)
    arg = hi if how == 'abs' else 0 if how == 'zero' else hi - fs / 2
    if how == 'abs':
        E.assume(hi > 0)
    bins = [nearest(E, (lo + (hi - lo) * i / (nf + 1)) * N / fs) for i in range(nf + 2)]
    B = FBF.create('linear', nf, N, fs, lo, arg, False)
    E.reach()
    E.claim('shape', B.shape == (N // 2 + 1, nf))
    E.eq('triangles between the nearest bins', B, triangles(B.shape, bins))


@harness('P35', bounds='every frequency')
def mel_scale(E):
    x = E.real('x', lo=0, hi=24000)
    y = E.real('y', lo=0, hi=4000)
    m = FBF.lin2mel(x)
    E.reach()
    E.eq('mel of a frequency', m, 1127 * slog(E, 1 + x / 700))
    E.eq('frequency of its mel', FBF.mel2lin(m), x)
    E.eq('mel of the frequency of a mel', FBF.lin2mel(FBF.mel2lin(y)), y)


@harness('P35', configs=[dict(how=h) for h in ('abs', 'neg')], bounds='1 filter, transform of 8 points, every cutoff frequency', patch=patch)
def etsi_bank(E, how):
    """edges equally spaced in mel, rounded to the nearest bins"""
    fs, N = 8000, 8
    lo = E.real('low', lo=0, hi=fs / 2)
    hi = E.real('high', lo=1, hi=fs / 2)
    E.assume(lo < hi)
    if how == 'neg':
        E.assume(hi < fs / 2)
    mid = 700 * (ssqrt(E, (1 + lo / 700) * (1 + hi / 700)) - 1)
    bins = [nearest(E, f * N / fs) for f in (lo, mid, hi)]
    B = FBF.create('mel_etsi', 1, N, fs, lo, hi if how == 'abs' else hi - fs / 2, False)
    E.reach()
    E.claim('shape', B.shape == (N // 2 + 1, 1))
    E.eq('triangle between the nearest bins', B, triangles(B.shape, bins))


@harness('P35', configs=[dict(nf=1, how=h) for h in ('abs', 'neg')] + [dict(nf=2, how='abs')], bounds='1-2 filters, transform of 8 points, every cutoff frequency', patch=patch)
def kaldi_bank(E, nf, how):
    """triangles in mel with edges equally spaced between the cutoffs"""
    fs, N = 8000, 8
    top = 1127 * math.log(1 + fs / 1400)
    a, b = E.real('a', lo=0, hi=top), E.real('b', lo=20, hi=top - 1)     # cutoffs in mel
    E.assume(a < b - 10)
    lo, hi = 700 * (sexp(E, a / 1127) - 1), 700 * (sexp(E, b / 1127) - 1)
    E.assume(hi > 0)
    E.assume(hi < fs / 2)
    e = [a + (b - a) * i / (nf + 1) for i in range(nf + 2)]
    ref = []
    for step in (fs / N, fs / (N - 1)):
        T = []
        for j in range(N // 2 + 1):
            m = 1127 * math.log(1 + j * step / 700)
            T.append([])
            for k in range(nf):
                l, c, r = e[k:k + 3]
                if j == N // 2 or m <= l or m >= r:
                    T[-1].append(0)
                elif m <= c:
                    T[-1].append((m - l) / (c - l))
                else:
                    T[-1].append((r - m) / (r - c))
        ref.append(T)
    B = FBF.create('mel_kaldi', nf, N, fs, lo, hi if how == 'abs' else hi - fs / 2, False)
    E.reach()
    E.claim('shape', B.shape == (N // 2 + 1, nf))
    # the frequency of a bin is a multiple of fs/N, or of fs/(N-1) as this code has it
    near = lambda x, y: s_and(x - y <= 1e-4, y - x <= 1e-4)
    E.claim('triangles', s_or(*[s_and(*[near(B[j, k], T[j][k]) for j in range(N // 2 + 1) for k in range(nf)]) for T in ref]))


@harness('P35', configs=[dict(kind='linear'), dict(kind='mel_kaldi'), dict(kind='mel_etsi')], bounds='2 filters, transform of 16 points, 3 cutoffs', patch=patch)
def normalized_bank(E, kind):
    """normalized filters are the filters scaled to add up to one; the mfcc object uses the bank of its options"""
    c = E.choice('c', 3)
    lo, hi = [(100, 3500), (600, 0), (0, -500)][c]
    B = FBF.create(kind, 2, 16, 8000, lo, hi, False)
    N = FBF.create(kind, 2, 16, 8000, lo, hi, True)
    E.reach()
    for k in range(2):
        E.eq('normalized filter', N[:, k] * sum(B[:, k]), B[:, k], tol=1e-5)
        E.eq('sum', sum(N[:, k]), 1, tol=1e-5)
    x = E.real('x', (1, 9), lo=-2, hi=2)
    for nrm, W in ((False, B), (True, N)):
        m = MFCC(fs=8000, frame_length=1, frame_shift=1, fft_length=16, fb_type=kind, low_freq=lo, high_freq=hi, num_filters=2, norm_filters=nrm, num_ceps=2,
                 use_energy=False, input_step='log_spec', output_step='logfb')
        E.eq('filter bank of the pipeline', m.compute(x), slog(E, symnp.S.dot(sexp(E, x), W) + 1e-10 if E.symbolic else np.exp(x).dot(W) + 1e-10), tol=1e-4)


# ---------------------------------------------------------------- the pipeline
def window_of(name, N):
    t = np.arange(N)
    c1, c2 = np.cos(2 * np.pi * t / N), np.cos(4 * np.pi * t / N)
    return dict(povey=(0.5 - 0.5 * c1) ** 0.85, hamming=0.54 - 0.46 * c1, hanning=0.5 - 0.5 * c1, blackman=0.42 - 0.5 * c1 + 0.08 * c2,
                rectangular=np.ones(N))[name]


def dct2(B, K, Q):
    """orthonormal DCT-II of the rows, first K, liftered"""
    n = len(B[0])
    out = []
    for r in B:
        row = []
        for k in range(min(K, n)):
            v = sum(r[t] * float(np.cos(np.pi * k * (2 * t + 1) / (2 * n))) for t in range(n)) * float(np.sqrt((1.0 if k == 0 else 2.0) / n))
            row.append(v * (1 + 0.5 * Q * math.sin(math.pi * k / Q)) if Q > 0 else v)
        out.append(row)
    return out


class Ref(object):
    """state of the reference pipeline"""

    def __init__(self):
        self.dc = (0, 0)      # last input, last output of the offset filter
        self.pre = 0

    def wave(self, E, x, o, w):
        L, S, N = o['L'], o['S'], o['N']
        x = list(x)
        if not o.get('snip_edges', True):
            n = len(x)
            F = int(np.floor(n / S + 0.5))
            off = (L - S) // 2
            per = 2 * (n - 1)

            def at(i):
                i = (i - off) % per if per else 0
                return x[i if i < n else per - i]
            x = [at(i) for i in range(max((F - 1) * S + L, n + off))]
        n = len(x)
        if o.get('dither', 0):
            g = o['dither'] * np.random.RandomState(seed=n).randn(n)
            x = [v + float(e) for v, e in zip(x, g)]
        if o.get('remove_dc_offset', True):
            y, (lx, ly) = [], self.dc
            for v in x:
                ly = v - lx + 0.999 * ly
                lx = v
                y.append(ly)
            self.dc = (lx, ly)
            x = y
        raw = x
        p = o.get('preemph_coeff', 0.97)
        if p > 0:
            x = [v - p * (self.pre if i == 0 else x[i - 1]) for i, v in enumerate(x)]
            self.pre = raw[-1]
        fr = [i * S for i in range(n) if i * S + L <= n]
        X = [[dft([x[j + t] * w[t] for t in range(L)], N, k) for k in range(N // 2 + 1)] for j in fr]
        P = [[a * a + b * b for a, b in r] for r in X]
        A = [[abs(symnp.SymComplex(a, b)) if E.symbolic else math.hypot(a, b) for a, b in r] for r in X]
        if o.get('raw_energy', True):
            e = [slog(E, sum(raw[j + t] * raw[j + t] for t in range(L)) + 1e-15) for j in fr]
        else:
            e = [slog(E, sum(r) / len(r) + 1e-10) for r in P]
        F = P if o.get('use_fft2', True) else A
        return X, F, e


def logfb(E, F, fb):
    return [[slog(E, sum(r[j] * float(fb[j, k]) for j in range(len(r))) + 1e-10) for k in range(fb.shape[1])] for r in F]


def make(o, **k):
    a = dict(o)
    L, S, N = a.pop('L'), a.pop('S'), a.pop('N')
    a.setdefault('dither', 0)
    a.setdefault('low_freq', 0)
    a.setdefault('num_filters', 2)
    a.setdefault('fb_type', 'linear')
    a.setdefault('num_ceps', 2)
    a.update(k)
    return MFCC(fs=1000, frame_length=L, frame_shift=S, fft_length=N, **a)


def mat(E, v, r, c):
    return oarr(E, v, (r, c))


def check_out(E, step, R, X, F, B, P, e, tol=1e-3):
    """one output of the pipeline; e: log energies or None"""
    n = len(F if F is not None else B)
    if step == 'fft':
        ex = [[c[0] for c in r] for r in X]
        if e is not None:
            ex = [[e[i]] + r[1:] for i, r in enumerate(ex)]
        E.claim('shape', R.shape == (n, len(ex[0])))
        E.eq('fft (real)', re(E, R), mat(E, ex, n, len(ex[0])), tol=tol)
        k = 1 if e is not None else 0
        E.eq('fft (imaginary)', im(E, R[:, k:]), mat(E, [[c[1] for c in r[k:]] for r in X], n, len(ex[0]) - k), tol=tol)
        return
    if step == 'fft_mag':
        ex = F
    elif step == 'log_spec':
        ex = [[slog(E, v + 1e-10) for v in r] for r in F]
    elif step == 'logfb':
        ex = B
    else:
        ex = P
    if e is not None:
        ex = [[e[i]] + list(r if step == 'logfb' else r[1:]) for i, r in enumerate(ex)]
    E.claim('shape', R.shape == (n, len(ex[0])))
    E.eq(step, R, mat(E, ex, n, len(ex[0])), tol=tol)


STEPS = ['fft', 'fft_mag', 'log_spec', 'logfb', 'cepstrum']
BASE = dict(L=4, S=2, N=4)
OPTS = [dict(), dict(use_energy=False), dict(raw_energy=False), dict(use_fft2=False, cepstral_lifter=0), dict(remove_dc_offset=False, window_type='hamming'),
        dict(preemph_coeff=0, window_type='hanning'), dict(dither=0.5, use_energy=False), dict(snip_edges=False), dict(snip_edges=False, L=3, S=2, dither=1, use_energy=False),
        dict(n=4, L=2, S=2, N=2, dither=2, remove_dc_offset=False, preemph_coeff=0, num_filters=1, num_ceps=1), dict(n=7, snip_edges=False, L=6, S=3, N=8, use_energy=False), dict(n=4, snip_edges=False, L=6, S=3, N=8, use_energy=False),
        dict(L=6, S=3, N=4, window_type='rectangular', num_ceps=1), dict(window_type='blackman', cepstral_lifter=5, num_filters=3, num_ceps=3, N=8),
        dict(L=5, S=5, N=8, energy_floor=0.5, remove_dc_offset=False), dict(snip_edges=False, raw_energy=False, L=4, S=3)]


@harness('P35', configs=[dict(o=o, out=s) for o in OPTS for s in STEPS if not (o.get('dither') and s in ('fft_mag', 'log_spec'))], bounds='6-8 samples, frames of 3-6, transforms of 2-8 points, 1-3 filters, 16 sets of options', patch=patch)
def pipeline(E, o, out):
    """every step of the wave pipeline against its definition"""
    o = dict(BASE, **o)
    n = o.pop('n', 8 if o['L'] > 5 else 6)
    x = E.real('x', (n,), lo=-8, hi=8)
    x0 = x.copy()
    m = make(o, output_step=out)
    if o['N'] < o['L']:
        o['N'] = 8
    fb = FBF.create('linear', o.get('num_filters', 2), o['N'], 1000, 0, 0, False)
    R = m.compute(x)
    E.reach()
    E.same('input', x, x0)
    w = window_of(o.get('window_type', 'povey'), o['L'])
    E.eq('window', w, m._window, tol=1e-5)
    X, F, e = Ref().wave(E, x, o, m._window)
    if not o.get('use_energy', True):
        e = None
    else:
        fl = math.log(o.get('energy_floor', 0) + 1e-15)
        e = [v if v > fl else fl for v in e]
    B = logfb(E, F, fb)
    P = dct2(B, o.get('num_ceps', 2), o.get('cepstral_lifter', 22))
    if not X:
        return
    check_out(E, out, R, X, F, B, P, e)


def cmat(E, name, r, c, lo, hi):
    a, b = E.real(name + 'r', (r, c), lo=lo, hi=hi), E.real(name + 'i', (r, c), lo=lo, hi=hi)
    if not E.symbolic:
        return a + 1j * b, a, b
    o = np.empty((r, c), dtype=object)
    for ix in np.ndindex(r, c):
        o[ix] = symnp.SymComplex(a[ix], b[ix])
    return wrap(o), a, b


PAIRS = [(a, b) for i, a in enumerate(STEPS) for b in STEPS[i:] if b != a or i < 4]


@harness('P35', configs=[dict(a=a, b=b, o=o) for a, b in PAIRS for o in (dict(), dict(use_energy=False, use_fft2=False), dict(cepstral_lifter=3, num_ceps=3, num_filters=3), dict(energy_floor=0.1, cepstral_lifter=0, num_ceps=1))],
         bounds='any input of 2 frames at every step, 2-3 filters, 5 frequencies', patch=patch)
def from_step(E, a, b, o):
    """the pipeline continued from an intermediate result"""
    o = dict(dict(L=6, S=3, N=8), **o)
    use_e = o.get('use_energy', True)
    nf = o.get('num_filters', 2)
    m = make(o, input_step=a, output_step=b)
    fb = FBF.create('linear', nf, 8, 1000, 0, 0, False)
    e = F = B = X = None
    if a == 'fft':
        x, p, q = cmat(E, 'x', 2, 5, -3, 3)
        F = [[(p[i, k] * p[i, k] + q[i, k] * q[i, k]) if o.get('use_fft2', True) else
              (abs(symnp.SymComplex(p[i, k], q[i, k])) if E.symbolic else math.hypot(p[i, k], q[i, k])) for k in range(5)] for i in range(2)]
        X = [[(p[i, k], q[i, k]) for k in range(5)] for i in range(2)]
        e = [p[i, 0] for i in range(2)]
    elif a == 'logfb':
        x = E.real('x', (2, nf + int(use_e)), lo=-9, hi=9)
        B = [list(r[1:]) if use_e else list(r) for r in x]
        e = [r[0] for r in x]
    else:
        x = E.real('x', (2, 5), lo=0 if a == 'fft_mag' else -9, hi=9)
        F = [[sexp(E, v) if a == 'log_spec' else v for v in r] for r in x]
        e = [r[0] for r in x]
    if use_e:
        fl = math.log(o.get('energy_floor', 0) + 1e-15)
        e = [v if v > fl else fl for v in e]
    else:
        e = None
    if B is None:
        B = logfb(E, F, fb)
    P = dct2(B, o.get('num_ceps', 2), o.get('cepstral_lifter', 22))
    x0 = x.copy()
    R = m.compute(x)
    E.reach()
    E.eq('input (real)', re(E, x), re(E, x0))
    E.eq('input (imaginary)', im(E, x), im(E, x0))
    check_out(E, b, R, X, F, B, P, e)


@harness('P35', configs=[dict(a=a, b=b, e=e) for a, b in PAIRS if a not in ('log_spec', b) for e in (True, False)], bounds='8 samples, 2 frames, 5 frequencies, 2 filters above the first one', patch=patch)
def two_stages(E, a, b, e):
    """wave to one step and on to the next is the same as wave to the last one"""
    o = dict(L=6, S=2, N=8, use_energy=e, low_freq=200)
    x = E.real('x', (8,), lo=-8, hi=8)
    one = make(o, output_step=b).compute(x)
    two = make(o, input_step=a, output_step=b).compute(make(o, output_step=a).compute(x))
    E.reach()
    if b in ('fft_mag', 'log_spec') and e:
        E.eq('log energy', two[:, 0], one[:, 0], tol=1e-3)
    E.eq('same result', two[:, 1:] if e else two, one[:, 1:] if e else one, tol=1e-3)
    if e:
        E.eq('log energy', two[:, 0], one[:, 0], tol=1e-3)


@harness('P35', configs=[dict(out=s, e=e, w=w) for s in ('fft', 'cepstrum') for e in (True, False) for w in ('povey', 'hamming')], bounds='two signals of 5 samples', patch=patch)
def stream(E, out, e, w):
    """the filters continue from one call to the next, until reset"""
    o = dict(BASE, use_energy=e, window_type=w)
    x, y = E.real('x', (5,), lo=-8, hi=8), E.real('y', (5,), lo=-8, hi=8)
    m = make(o, output_step=out)
    first = m.compute(x)
    second = m.compute(y)
    m.reset()
    again = m.compute(x)
    E.reach()
    fb = FBF.create('linear', 2, 4, 1000, 0, 0, False)
    r = Ref()
    for k, (R, s) in enumerate(((first, x), (second, y), (again, x))):
        if k == 2:
            r = Ref()
        X, F, le = r.wave(E, s, o, m._window)
        B = logfb(E, F, fb)
        fl = math.log(1e-15)
        check_out(E, out, R, X, F, B, dct2(B, 2, 22), [v if v > fl else fl for v in le] if e else None)


@harness('P35', configs=[dict(b=b, n=n) for b in ('logfb', 'cepstrum') for n in range(8)] + [dict(b='log_spec', n=n, e=e) for n in range(4) for e in (0, 1)] +
                         [dict(b='fft', n=1), dict(b='fft_mag', n=1), dict(b='fft_mag', n=2), dict(b='fft_mag', n=3)],
         bounds='6 samples, 2 frames, every combination of extra outputs', patch=patch)
def extras(E, b, n, e=1):
    """fft, magnitude and filter banks are also returned when asked for, in this order, unchanged by the energy"""
    o = dict(BASE, use_energy=bool(e))
    x = E.real('x', (6,), lo=-8, hi=8)
    m = make(o, output_step=b)
    f, g, h = bool(n & 1), bool(n & 2), bool(n & 4)
    R = m.compute(x, return_fft=f, return_fft_mag=g, return_logfb=h)
    E.reach()
    E.claim('one result or a tuple', isinstance(R, tuple) == bool(n))
    if n:
        E.claim('number of results', len(R) == 1 + f + g + h)
    R = list(R) if n else [R]
    X, F, le = Ref().wave(E, x, o, m._window)
    fl = math.log(1e-15)
    le = [v if v > fl else fl for v in le]
    B = logfb(E, F, FBF.create('linear', 2, 4, 1000, 0, 0, False))
    check_out(E, b, R.pop(0), X, F, B, dct2(B, 2, 22), le if o['use_energy'] else None)
    if f:
        check_out(E, 'fft', R.pop(0), X, F, B, None, None)
    if g:
        check_out(E, 'fft_mag', R.pop(0), X, F, B, None, None)
    if h:
        check_out(E, 'logfb', R.pop(0), X, F, B, None, None)


@harness('P35', bounds='every option')
def options(E):
    """command line options reach the pipeline"""
    i, s = E.cint('i', 1, 8), E.choice('s', 5)
    t, r = E.cint('t', 0, 1), E.cint('r', 1, 9)
    for prefix in (None, 'f'):
        q = argparse.ArgumentParser()
        MFCC.add_argparse_args(q, prefix)
        p = '--' if prefix is None else '--f-'
        tf = ['true', 'false'][t]
        v = ['--sample-frequency', 8000, '--frame-length', i, '--frame-shift', i + 1, '--fft-length', 512 + i, '--remove-dc-offset', tf, '--preemphasis-coeff', r / 10.,
             '--window-type', ['hamming', 'hanning', 'povey', 'rectangular', 'blackman'][s], '--use-fft2', tf, '--dither', r / 4., '--fb-type', ['mel_kaldi', 'mel_etsi', 'linear'][s % 3],
             '--num-filters', i + 2, '--low-freq', r * 2.5, '--high-freq', -r * 7.5, '--norm-filters', tf, '--num-ceps', i + 3, '--snip-edges', tf, '--energy-floor', r / 3.,
             '--raw-energy', tf, '--use-energy', tf, '--cepstral-lifter', r * 1.5, '--input-step', 'wave', '--output-step', STEPS[s]]
        a = q.parse_args([str(c) if k % 2 else p + c[2:] for k, c in enumerate(v)])
        d = MFCC.filter_args(prefix=prefix, **vars(a))
        E.claim('options', d == dict(fs=8000, frame_length=i, frame_shift=i + 1, fft_length=512 + i, remove_dc_offset=not t, preemph_coeff=r / 10., window_type=v[13], use_fft2=not t,
                                     dither=r / 4., fb_type=v[19], num_filters=i + 2, low_freq=r * 2.5, high_freq=-r * 7.5, norm_filters=not t, num_ceps=i + 3, snip_edges=not t,
                                     energy_floor=r / 3., raw_energy=not t, use_energy=not t, cepstral_lifter=r * 1.5, input_step='wave', output_step=STEPS[s]))
    E.reach()
