"""frame selection and energy based speech detection"""
import argparse
import numpy as np
import scipy.signal
from symx.harness import harness, s_and, s_or
from symx.util import slog, wrap, lfilter_model
from hyperion.feats.frame_selector import FrameSelector
from hyperion.feats.energy_vad import EnergyVAD


@harness('P21', configs=[dict(n=n, m=m) for n in range(0, 5) for m in range(0, 5)], bounds='up to 4 frames, up to 4 decisions, tolerance 0-3')
def frame_selector(E, n, m):
    tol = E.choice('tol', 4)
    x = E.real('x', (n, 2))
    sel = np.array([E.bool('s%d' % i) for i in range(m)], dtype=bool)
    x0, s0 = x.copy(), sel.copy()
    raised, y = E.attempt(lambda: FrameSelector(tol_num_frames=tol).select(x, sel))
    E.reach()
    E.claim('rejected exactly above the tolerance', raised == (abs(n - m) > tol))
    E.same('input', x, x0)
    E.claim('input', np.all(sel == s0))
    if raised:
        return
    keep = [i for i in range(min(n, m)) if sel[i]]
    E.claim('number of frames', y.shape == (len(keep), 2))
    if keep:
        E.same('frames', y, x[keep])


@harness('P21', bounds='option')
def selector_options(E):
    t = E.choice('t', 5)
    for prefix in (None, 'vad'):
        q = argparse.ArgumentParser()
        FrameSelector.add_argparse_args(q, prefix)
        d = FrameSelector.filter_args(prefix=prefix, **vars(q.parse_args(['--tol-num-frames' if prefix is None else '--vad-tol-num-frames', str(t)])))
        E.claim('tolerance', FrameSelector(**d).tol_num_frames == t)
    E.reach()


def patch_filter(env):
    return dict(extra=[(scipy.signal.lfilter, lfilter_model)])


def decide(E, logE, thr, scale, ctx, prop):
    n = len(logE)
    m = sum(logE) / n
    v = [1 if e > thr + scale * m else 0 for e in logE]
    if ctx == 0:
        return [a == 1 for a in v]
    out = []
    for i in range(n):
        w = v[max(0, i - ctx):i + ctx + 1]
        out.append(sum(w) > len(w) * prop)
    return out


@harness('P21', configs=[dict(n=n, ctx=c, loge=l) for n in (1, 2, 3, 4) for c in (0, 1, 2, 3) for l in (0, 1) if l == 0 or n < 3] + [dict(n=5, ctx=1, loge=0)],
         bounds='up to 5 frames of features with log-energy first, contexts 0-3, any threshold, scale and proportion')
def vad_from_features(E, n, ctx, loge):
    x = E.real('x', (n, 2), lo=-40, hi=40)
    thr, scale = E.real('thr', lo=-20, hi=20), E.real('scale', lo=0, hi=4)
    prop = E.real('prop', lo=0.01, hi=0.99)
    x0 = x.copy()
    v = EnergyVAD(vad_energy_threshold=thr, vad_energy_mean_scale=scale, vad_frames_context=ctx, vad_proportion_threshold=prop)
    r = v.compute(x, return_loge=bool(loge))
    E.reach()
    E.same('input', x, x0)
    if loge:
        r, e = r
        E.same('log-energy', e, x[:, 0])
    E.claim('one decision per frame', len(r) == n)
    w = decide(E, [x[i, 0] for i in range(n)], thr, scale, ctx, prop)
    for i in range(n):
        E.claim('decision', bool(r[i]) == w[i])


@harness('P21', configs=[dict(n=n, calls=c, snip=s) for n, s in ((4, 1), (5, 1), (6, 1), (8, 1), (4, 0), (5, 0), (6, 0), (7, 0)) for c in (1, 2) if not (c == 2 and n > 6)] +
         [dict(n=n, calls=1, snip=s, L=L, S=S) for n, s, L, S in ((6, 0, 6, 2), (7, 0, 6, 2), (5, 0, 5, 2), (7, 0, 5, 2), (7, 0, 5, 3), (8, 0, 5, 3), (7, 1, 3, 2), (9, 1, 5, 3), (5, 0, 4, 4), (5, 0, 5, 4), (9, 0, 5, 4), (4, 0, 3, 3))],
         patch=patch_filter, bounds='waves of up to 9 samples, frames of 3 to 6 with shifts of 2 to 4, up to 2 files')
def vad_from_wave(E, n, calls, snip, L=4, S=2):
    thr, scale = E.real('thr', lo=-20, hi=20), E.real('scale', lo=0, hi=4)
    v = EnergyVAD(fs=1000, frame_length=L, frame_shift=S, dither=0, snip_edges=bool(snip), vad_energy_threshold=thr, vad_energy_mean_scale=scale)
    for c in range(calls):
        x = E.real('x%d' % c, n, lo=-100, hi=100)
        x0 = x.copy()
        if c:
            v.reset()
        r, e = v.compute(x, return_loge=True)
        E.same('input', x, x0)
        if snip:
            nf = (n - L) // S + 1
            p = list(x)
        else:
            nf = int(np.round(n / S))
            pad = (nf - 1) * S + L - n
            left = (L - S) // 2
            right = pad - left
            p = [x[i] for i in range(left, 0, -1)] + list(x) + [x[n - 2 - i] for i in range(right)]
        y, prev = [], (0, 0)
        for a in p:
            o = a - prev[0] + (999 * prev[1]) / 1000
            y.append(o)
            prev = (a, o)
        E.claim('number of frames', len(r) == nf and len(e) == nf)
        le = []
        for i in range(nf):
            le.append(slog(E, sum(y[S * i + k] * y[S * i + k] for k in range(L)) + 1e-15))
            E.eq('log-energy', e[i], le[i])
        w = decide(E, le, thr, scale, 0, None)
        for i in range(nf):
            E.claim('decision', bool(r[i]) == w[i])
    E.reach()


@harness('P21', configs=[dict(n=n) for n in (4, 6)], patch=patch_filter, bounds='waves of up to 6 samples')
def dither_is_added(E, n):
    d = E.real('d', pos=True)
    x = E.real('x', n, lo=-100, hi=100)
    x0 = x.copy()
    noise = []

    class R(object):
        def randn(self, k):
            noise.append(E.real('g%d' % len(noise), k))
            return noise[-1]
    with E.random_state(R()):
        v = EnergyVAD(fs=1000, frame_length=4, frame_shift=2, dither=d)
        r, e = v.compute(x, return_loge=True)
    E.same('input', x, x0)
    E.claim('one draw', len(noise) == 1)
    E.reach()
    w = EnergyVAD(fs=1000, frame_length=4, frame_shift=2, dither=0)
    r2, e2 = w.compute(x + d * noise[0], return_loge=True)
    E.eq('log-energy of the dithered wave', e, e2)
    E.claim('decisions', all(bool(a) == bool(b) for a, b in zip(r, r2)))
