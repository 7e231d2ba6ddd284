"""Programs: outputs belong to the trials, segments and files that they name"""
import os
import numpy as np
from symx.harness import harness, s_and, s_or
from symx.symbytes import Disk, patch_bytes
from symx.fakeh5 import patch_h5
from symx.prog import Program, opts
from symx.util import array, ssqrt, zeros
from hyperion.io import ark_data_writer as aw, ark_data_reader as ar, h5_data_writer as hw, kaldi_data_reader as kdr
from hyperion.io.hyp_data_writer import HypDataWriter
from hyperion.io.data_rw_factory import DataWriterFactory as DWF, SequentialDataReaderFactory as SDRF
from hyperion.utils import SegmentList, RTTM
from hyperion.utils.utt2info import Utt2Info
from hyperion.utils.trial_ndx import TrialNdx
from hyperion.utils.trial_key import TrialKey
from hyperion.utils.trial_scores import TrialScores
from hyperion.transforms import TransformList, CentWhiten
from hyperion.metrics import compute_eer
from hyperion import score_norm as sn
from hyperion.helpers import PLDAFactory
from hyperion.classifiers import LinearGBE, LinearGBEUP, LinearSVMC, LogisticRegression, QScoringHomoGBE
from hyperion.feats import MFCC, EnergyVAD
from hyperion.io import SequentialAudioReader

TOL = 1e-5
P = {n: Program(n + '.py') for n in (
    'arkvad2nist', 'h5vad2nist', 'segments-to-bin-vad', 'rttm-to-bin-vad', 'vectors2scores', 'scores2lre_format', 'eval-cos-1vs1', 'eval-plda-1vs1',
    'eval-plda-nvs1', 'eval-linear-gbe', 'eval-linear-gbe-up', 'eval-linear-svmc', 'eval-logistic-regression', 'eval-q-scoring-homo-gbe', 'eval-score-norm',
    'eval-2class-performance', 'compute-energy-vad', 'compute-mfcc-feats', 'ark2hyp', 'copy-feats', 'merge-h5-files')}


def patch(env):
    p = patch_bytes(env)
    p['extra'] = list(p['extra']) + list(patch_h5(env)['extra'])
    d = Disk()
    p['setattrs'] = [x for x in p['setattrs'] if x[1] != 'INT_OBJ'] + [(aw, 'open', d.open), (ar, 'open', d.open), (kdr, 'open', d.open)]
    return p


def run(E, name, **kw):
    p = P[name]
    E.claim('the program can be loaded', p.error is None, hint=p.error)
    if p.error is None:
        p.main(*opts(**kw))
    return p


class swap(object):
    """another object for every name of the program that stands for a class of the repository"""
    def __init__(self, name, real, val):
        self.d = P[name].mod.__dict__
        self.keys = [k for k, v in self.d.items() if v is real]
        self.real, self.val = real, val

    def __enter__(self):
        for k in self.keys:
            self.d[k] = self.val

    def __exit__(self, *a):
        for k in self.keys:
            self.d[k] = self.real


def write_lines(fp, lines):
    with open(fp, 'w') as f:
        for l in lines:
            f.write(l + '\n')
    return fp


def num(E, x):
    v = E.detok(x)
    return float(v) if isinstance(v, str) else v


def lines_of(fp):
    with open(fp) as f:
        return f.read().splitlines()


@harness('P31', configs=[dict(prog=p, n=n) for p in ('arkvad2nist', 'h5vad2nist') for n in (1, 2, 4, 5)], patch=patch,
         bounds='2 files of up to 5 frames, every sequence of speech and non-speech')
def nist_vad(E, prog, n):
    """intervals tile the file and have the state of their frames"""
    vads = {'b': E.typed(E.int('b', 0, 1, n), 'float32'), 'a': E.typed(E.int('a', 0, 1, max(1, n - 2)), 'float32')}
    if prog == 'arkvad2nist':
        fp, sc = E.tmp('v.ark'), E.tmp('v.scp')
        with aw.ArkDataWriter(fp, sc) as w:
            for k, v in vads.items():
                w.write(k, v)
        src = sc
    else:
        src = E.tmp('v.h5')
        HypDataWriter(src).write(list(vads), '', list(vads.values()))
    out = E.tmp('nist')
    run(E, prog, input_file=src, output_dir=out)
    E.reach()
    E.claim('files', sorted(os.listdir(out)) == ['a.txt', 'b.txt'])
    for k, v in vads.items():
        at, m = 0, len(v)
        last = None
        for l in lines_of(os.path.join(out, k + '.txt')):
            f = l.split('\t')
            E.claim('format', f[:5] == ['X', 'X', 'X', 'SAD', k] and f[7] in ('speech', 'non-speech') and f[8] == '1.00')
            b, e = int(round(float(f[5]) * 100)), int(round(float(f[6]) * 100))
            E.claim('tiles', b == at and e > b and e <= m)
            for t in range(b, e):
                E.claim('state', v[t] == (1 if f[7] == 'speech' else 0))
            E.claim('alternate', f[7] != last)
            last, at = f[7], e
        E.claim('whole file', at == m)


def seg_file(E, prog, n):
    """n segments of 2 files at times of the frame grid"""
    rows = []
    for i in range(n):
        f = ['07', 'nan'][E.choice('f%d' % i, 2)]
        b = E.choice('b%d' % i, 4) if i else 1 + E.choice('b0', 2)
        rows.append((f, b, b + 1 + (E.choice('d%d' % i, 2) if i == 0 else 1)))
    first = rows[0][0]
    rows.sort(key=lambda r: (r[0] != first, r[1]))
    fp = E.tmp('segs')
    if prog.startswith('seg'):
        write_lines(fp, ['s%d %s %.2f %.2f' % (i, f, b / 100., e / 100.) for i, (f, b, e) in enumerate(rows)])
        ref = SegmentList.load(fp)
    else:
        write_lines(fp, ['SPEAKER %s 1 %.2f %.2f <NA> <NA> spk <NA> <NA>' % (f, b / 100., (e - b) / 100.) for f, b, e in rows])
        ref = RTTM.load(fp).to_segment_list()
    return fp, rows, ref


@harness('P31', configs=[dict(prog=p, nf=nf, parts=n) for p in ('segments-to-bin-vad', 'rttm-to-bin-vad') for nf in (False, True) for n in (1, 2)], patch=patch,
         bounds='3 segments of 2 files, files of 9 and 7 frames, 2 parts')
def bin_vad(E, prog, nf, parts):
    """each file has the VAD of its own segments and frames"""
    fp, rows, ref = seg_file(E, prog, 3)
    nframes = {'07': 9, 'nan': 7, '3': 2}
    kw = dict(num_frames=write_lines(E.tmp('nf'), ['%s %d' % kv for kv in nframes.items()])) if nf else {}
    files = []
    for r in rows:
        if r[0] not in files:
            files.append(r[0])
    E.assume(len(files) >= parts)
    got = []
    arg = 'segments' if prog.startswith('seg') else 'rttm'
    for i in range(parts):
        a, s = E.tmp('v%d.ark' % i), E.tmp('v%d.scp' % i)
        run(E, prog, output_path='ark,scp:%s,%s' % (a, s), frame_shift=10, part_idx=i + 1, num_parts=parts, **dict(kw, **{arg: fp}))
        with SDRF.create('ark:' + a) as r:
            keys, data = r.read()
        got += [(i, str(k), d) for k, d in zip(keys, data)]
    E.reach()
    silent = [f for f in nframes if f not in files] if nf and prog.startswith('rttm') else []
    E.claim('every file once', sorted(k for _, k, _ in got) == sorted(files + silent))
    for i, k, d in got:
        E.claim('silent files in the first part', k not in silent or i == 0)
        w = [1] * nframes[k] if k in silent else [int(x) for x in ref.to_bin_vad(k, frame_shift=10, num_frames=nframes[k] if nf else None)]
        E.claim('vad of ' + k, [int(x) for x in d] == w)
        if k not in silent:
            for f, b, e in rows:
                if f == k:
                    E.claim('speech', all(w[t] == 1 for t in range(b, min(e, len(w)))))


def vec_store(E, keys, d, nm='v'):
    fp = E.tmp(nm + '.h5')
    v = {k: E.real('v_%s' % k, d, lo=-5, hi=5) for k in keys}
    with DWF.create('h5:' + fp) as w:
        w.write(list(v), [E.typed(v[k], 'float64') for k in v])
    return fp, v


@harness('P31', configs=[dict(n=n, c=c) for n, c in ((1, 2), (3, 2), (2, 3))], patch=patch, bounds='up to 3 segments and 3 classes in any order')
def vectors_to_scores(E, n, c):
    """scores of the vectors by class and segment"""
    fp, v = vec_store(E, ['s%d' % i for i in E.perm('p', n)], c)
    cls = ['c%d' % i for i in E.perm('q', c)]
    cf = write_lines(E.tmp('classes'), ['%s %d' % (k, i) for i, k in enumerate(cls)])
    out = E.tmp('s.h5')
    run(E, 'vectors2scores', input_file='h5:' + fp, output_file=out, class_file=cf)
    r = TrialScores.load(out)
    E.reach()
    E.claim('names', sorted(r.model_set) == sorted(cls) and sorted(r.seg_set) == sorted(v))
    for i, m in enumerate(r.model_set):
        for j, s in enumerate(r.seg_set):
            E.claim('there', bool(r.score_mask[i, j]))
            E.eq('score', r.scores[i, j], v[s][cls.index(m)], TOL)


@harness('P31', configs=[dict(tl=t, cf=c, ext=e) for t, e in ((False, False), (True, False), (True, True)) for c in (False, True)], text=True, patch=patch_h5,
         bounds='2 classes by 3 segments with any missing, lists of up to 3 in any order')
def lre_format(E, tl, cf, ext):
    """rows are segments, columns classes, missing scores are -100"""
    ms, ss = ['c1', 'c0'], ['s2', 's0', 's1']
    mask = np.array([[E.bool('k%d%d' % (i, j)) if (i, j) in ((0, 1), (1, 2)) else True for j in range(3)] for i in range(2)])
    sc = E.real('x', (2, 3), lo=-5, hi=5)
    src, out = E.tmp('s.h5'), E.tmp('o.tsv')
    TrialScores(np.array(ms), np.array(ss), sc, mask).save(src)
    segs = ss
    kw = {}
    if tl:
        segs = [(ss + ['s7'])[i] for i in E.perm('p', 4)[:2]]
        e = {s: '.sph' if s in ('s2', 's7') else '.wav' for s in segs}
        kw['test_list'] = write_lines(E.tmp('tl'), ['segmentid x'] + ['%s%s y' % (s, e[s] if ext else '') for s in segs])
    cls = ms
    if cf:
        cls = [(ms + ['c7'])[i] for i in E.perm('q', 3)[:2]]
        kw['class_file'] = write_lines(E.tmp('cf'), ['%s 1' % c for c in cls])
    run(E, 'scores2lre_format', input_file=src, output_file=out, add_ext=ext, **kw)
    E.reach()
    L = [l.split('\t') for l in lines_of(out)]
    E.claim('header', L[0][0] == 'segmentid' and sorted(L[0][1:]) == sorted(cls))
    E.claim('rows', sorted(l[0] for l in L[1:]) == sorted(s + (e[s] if ext else '') for s in segs))
    for l in L[1:]:
        s = l[0].split('.')[0]
        E.claim('columns', len(l) == len(L[0]))
        for c, x in zip(L[0][1:], l[1:]):
            x = num(E, x)
            if s in ss and c in ms and mask[ms.index(c), ss.index(s)]:
                E.eq('score', x, sc[ms.index(c), ss.index(s)], TOL)
            else:
                E.eq('missing', x, -100, TOL)


def preproc(E, d):
    if not E.bool('preproc'):
        return {}, lambda x: x
    fp = E.tmp('pre.h5')
    TransformList([CentWhiten(mu=np.arange(d) * 0.5, T=2 * np.eye(d), name='cw')]).save(fp)
    m = np.arange(d) * 0.5
    return dict(preproc_file=fp), lambda x: (x - m) * 2.0


class PLDA(object):
    """stands for the model: scores that tell the vectors they come from"""
    def __init__(self, E, calls):
        self.E = E
        self.calls = calls
        self.add_argparse_eval_args = PLDAFactory.add_argparse_eval_args

    def load_plda(self, kind, fp):
        self.calls.append((kind, fp))
        return self

    def llr_1vs1(self, x1, x2):
        y = [[a[0] * 3 + b[0] for b in x2] for a in x1]
        return array(self.E, y)

    def llr_Nvs1(self, x1, x2, ids1=None, method='vavg-lnorm'):
        self.calls.append(method)
        n = max(ids1) + 1
        s = [sum([x1[i] for i in range(len(x1)) if ids1[i] == k], 0 * x1[0]) for k in range(n)]
        return self.llr_1vs1(s, x2)


def trial_files(E, d, per, by):
    """vectors, enrollment and trials: models m1, m0 with per vectors each"""
    ek = ['e%d' % i for i in E.perm('pe', 2 * per)]
    sk = ['s1', 's0']
    fp, v = vec_store(E, ek + sk, d)
    models = ['m1', 'm0'] * per if by == 'ndx' else ek
    en = write_lines(E.tmp('enroll'), ['%s %s' % (k, m) for k, m in zip(ek, models)])
    kw = dict(iv_file='h5:' + fp, enroll_file=en)
    if by == 'ndx':
        nd = E.tmp('ndx.h5')
        TrialNdx(np.array(['m1', 'm0']), np.array(sk), np.array([[True, True], [True, True]])).save(nd)
        kw['ndx_file'] = nd
    else:
        kw['test_file'] = write_lines(E.tmp('test'), ['%s x' % k for k in sk])
        kw['eval_set'] = 'coh-coh'
    return kw, {m: [v[k] for k, n in zip(ek, models) if n == m] for m in sorted(set(models))}, {k: v[k] for k in sk}


@harness('P31', configs=[dict(by=b) for b in ('ndx', 'test')], patch=patch, bounds='2 models of one vector by 2 segments of dimension 2')
def cosine(E, by):
    """score is the cosine of the vectors of the model and the segment"""
    kw, em, tm = trial_files(E, 2, 1, by)
    pk, f = preproc(E, 2)
    for x in [v[0] for v in em.values()] + list(tm.values()):
        y = f(x)
        E.assume(y[0] * y[0] + y[1] * y[1] > 0.01)
    out = E.tmp('s.h5')
    run(E, 'eval-cos-1vs1', score_file=out, **dict(kw, **pk))
    r = TrialScores.load(out)
    E.reach()
    E.claim('names', sorted(r.model_set) == sorted(em) and sorted(r.seg_set) == ['s0', 's1'])
    for i, m in enumerate(r.model_set):
        for j, s in enumerate(r.seg_set):
            a, b = f(em[m][0]), f(tm[s])
            dot = a[0] * b[0] + a[1] * b[1]
            n1, n2 = ssqrt(E, a[0] * a[0] + a[1] * a[1]), ssqrt(E, b[0] * b[0] + b[1] * b[1])
            E.eq('cosine', r.scores[i, j] * n1 * n2 * 0.5, dot, 1e-3)     # vectors have length sqrt(2)


@harness('P31', configs=[dict(prog=p, by=b, kind=k) for p, b, k in (('eval-plda-1vs1', 'ndx', 'splda'), ('eval-plda-1vs1', 'test', 'frplda'), ('eval-plda-nvs1', 'ndx', 'frplda'), ('eval-plda-nvs1', 'test', 'plda'))],
         patch=patch, bounds='2 models of up to 2 vectors by 2 segments')
def plda(E, prog, by, kind):
    """score of the model of that kind on the vectors of the model and the segment"""
    kw, em, tm = trial_files(E, 1, 2 if 'nvs1' in prog else 1, by)
    pk, f = preproc(E, 1)
    out = E.tmp('s.h5')
    calls = []
    mth = ('vavg', 'book')[E.choice('method', 2)]
    if 'nvs1' in prog:
        kw['pool_method'] = mth
    with swap(prog, PLDAFactory, PLDA(E, calls)):
        run(E, prog, score_file=out, model_file='the_model', plda_type=kind, **dict(kw, **pk))
    r = TrialScores.load(out)
    E.reach()
    E.claim('model', calls[0] == (kind, 'the_model') and ('nvs1' not in prog or calls[1:] == [mth]))
    E.claim('names', sorted(r.model_set) == sorted(em) and sorted(r.seg_set) == ['s0', 's1'])
    for i, m in enumerate(r.model_set):
        for j, s in enumerate(r.seg_set):
            E.claim('there', bool(r.score_mask[i, j]))
            E.eq('score', r.scores[i, j], sum([f(x)[0] for x in em[m]], 0) * 3 + f(tm[s])[0], TOL)


class Classifier(object):
    def __init__(self, real, calls):
        self.calls = calls
        self.add_argparse_eval_args = real.add_argparse_eval_args

    def load(self, fp):
        self.calls.append(fp)
        return self

    def predict(self, x, *a, **kw):
        self.calls.append((a, kw))
        return np.stack([x[:, 0], x[:, 0] * 2 + 1, x[:, 1]], axis=1).view(type(x))


CLS = {'eval-linear-gbe': (LinearGBE, dict(eval_method='linear')), 'eval-linear-gbe-up': (LinearGBEUP, dict(eval_method='linear')), 'eval-linear-svmc': (LinearSVMC, dict(eval_type='logit')),
       'eval-logistic-regression': (LogisticRegression, dict(eval_type='logit')), 'eval-q-scoring-homo-gbe': (QScoringHomoGBE, {})}


@harness('P31', configs=[dict(prog=p, vec=v) for p in CLS for v in (False, True)], patch=patch, bounds='3 segments of 3 classes')
def classifiers(E, prog, vec):
    """score of each class for each segment"""
    order = E.perm('p', 3)
    keys = ['s%d' % i for i in (2, 0, 1)]
    fp, v = vec_store(E, keys, 2)
    segs = [keys[i] for i in order]
    kw = dict(class2int_file=write_lines(E.tmp('c2i'), ['k%d %d' % (c, i) for i, c in enumerate((1, 2, 0))]),
              test_file=write_lines(E.tmp('test'), ['%s x' % s for s in segs]))
    pk, f = preproc(E, 2)
    real, arg = CLS[prog]
    calls = []
    out = E.tmp('s.h5')
    if vec:
        kw['vector_score_file'] = E.tmp('vec.h5')
    if 'gbe' in prog:
        kw['normalize'] = E.bool('normalize')
    kw.update(arg)
    with swap(prog, real, Classifier(real, calls)):
        run(E, prog, iv_file=fp, model_file='the_model', score_file=out, **dict(kw, **pk))
    r = TrialScores.load(out)
    E.reach()
    E.claim('model', calls[0] == 'the_model')
    a = list(calls[1][0]) + list(calls[1][1].values())
    E.claim('options', sorted(map(str, a)) == sorted(map(str, [kw[k] for k in ('eval_method', 'eval_type', 'normalize') if k in kw])))
    E.claim('names', sorted(r.model_set) == ['k0', 'k1', 'k2'] and sorted(r.seg_set) == sorted(segs))
    for i, m in enumerate(r.model_set):
        for j, s in enumerate(r.seg_set):
            x = f(v[s])
            E.eq('score', r.scores[i, j], [x[0], x[0] * 2 + 1, x[1]][['k1', 'k2', 'k0'].index(m)], TOL)
    if vec:
        from hyperion.io.hyp_data_reader import HypDataReader
        h = HypDataReader(kw['vector_score_file'])
        for s in segs:
            x = f(v[s])
            y = h.read([s])[0]
            for i, w in enumerate([x[0], x[0] * 2 + 1, x[1]]):
                E.eq('vector of scores', y[i], w, TOL)


def named(E, nm, ms, ss, shuffle, v=None):
    """scores by name; stored in another order"""
    x = E.real(nm, (len(ms), len(ss)), lo=-5, hi=5) if v is None else array(E, v)
    p, q = ([1, 0] if E.bool(nm + '_r') else [0, 1], [1, 0] if E.bool(nm + '_c') else [0, 1]) if shuffle else ([0, 1], [0, 1])
    fp = E.tmp(nm + '.h5')
    TrialScores(np.array(ms)[p], np.array(ss)[q], x[p][:, q]).save(fp)
    return fp, x


@harness('P31', configs=[dict(norm=n) for n in ('t-norm', 'z-norm', 's-norm', 'zt-norm')], patch=patch, bounds='2 models, 2 segments, 2 cohort segments and models in any order')
def normalisation(E, norm):
    """each trial is normalised by the cohort scores of its model and its segment"""
    ms, ss, ec, tc = ['m0', 'm1'], ['s0', 's1'], ['a0', 'a1'], ['b0', 'b1']
    fs = E.tmp('s.h5')
    x = E.real('x', (2, 2), lo=-5, hi=5)
    TrialScores(np.array(ms), np.array(ss), x).save(fs)
    kw = {}
    coh_t = coh_e = cc = None
    if norm != 'z-norm':
        kw['coh_test_file'], coh_t = named(E, 'ct', tc, ss, True, [[1., 2.5], [-1., 0.5]] if norm == 'zt-norm' else None)
    if norm != 't-norm':
        kw['enr_coh_file'], coh_e = named(E, 'ec', ms, ec, True, [[0.5, 2.], [-3., 1.25]] if norm == 'zt-norm' else None)
    if norm == 'zt-norm':
        kw['coh_coh_file'], cc = named(E, 'cc', tc, ec, True, [[0.75, -2.], [1.5, 3.]])
    for a, ax in ((coh_t, 0), (coh_e, 1)):
        if a is not None and norm != 'zt-norm':
            for r in a if ax else a.T:
                E.assume((r[0] - r[1]) * (r[0] - r[1]) > 0.01)
    out = E.tmp('o.h5')
    run(E, 'eval-score-norm', score_file=fs, output_file=out, norm_type=norm, **kw)
    r = TrialScores.load(out)
    E.reach()
    w = {'t-norm': lambda: sn.TNorm().predict(x, coh_t), 'z-norm': lambda: sn.ZNorm().predict(x, coh_e), 's-norm': lambda: sn.SNorm().predict(x, coh_t, coh_e),
         'zt-norm': lambda: sn.ZTNorm().predict(x, coh_t, coh_e, cc)}[norm]()
    E.claim('names', sorted(r.model_set) == ms and sorted(r.seg_set) == ss)
    for i, m in enumerate(r.model_set):
        for j, s in enumerate(r.seg_set):
            E.eq('score', r.scores[i, j], w[ms.index(m), ss.index(s)], 1e-3)


@harness('P31', configs=[dict(m=m, s=s, d=d) for m, s in ((1, 3), (2, 2)) for d in (False, True)], text=True, patch=patch_h5, bounds='up to 2 by 2 trials')
def performance(E, m, s, d):
    """equal error rate and numbers of the trials of the key"""
    ms, ss = ['m%d' % i for i in range(m)], ['s%d' % i for i in range(s)]
    x = E.real('x', (m, s), lo=-5, hi=5)
    lab = [[E.choice('k%d%d' % (i, j), 3) for j in range(s)] for i in range(m)]
    tar = np.array([[l == 1 for l in r] for r in lab])
    non = np.array([[l == 2 for l in r] for r in lab])
    E.assume(bool(tar.any() and non.any()))
    fs, fk = E.tmp('s.h5'), E.tmp('k.h5')
    TrialScores(np.array(ms), np.array(ss)[::-1], x[:, ::-1]).save(fs)
    TrialKey(np.array(ms), np.array(ss), tar, non).save(fk)
    out = E.tmp('new/o' if d else 'o')
    cwd = os.getcwd()
    os.chdir(os.path.dirname(E.tmp('o')))
    try:
        run(E, 'eval-2class-performance', score_file=fs, key_file=fk, output_path=out if d else 'o')
    finally:
        os.chdir(cwd)
    E.reach()
    r = dict(l.split() for l in lines_of(out + '.res'))
    E.claim('trials', int(r['NTAR']) == int(tar.sum()) and int(r['NNON']) == int(non.sum()))
    eer = compute_eer(x[tar], x[non])
    d = num(E, r['EER']) - eer
    E.claim('equal error rate', s_and(d <= 6e-5, d >= -6e-5))


class Feats(object):
    """stands for the feature extraction: frames that tell their samples"""
    frame_shift = 10

    def __init__(self, real):
        self.real = real
        self.state = 0

    def __call__(self, **kw):
        self.kw = kw
        self.input_step = kw.get('input_step', 'wave')
        return self

    def filter_args(self, **kw):
        return self.real.filter_args(**kw)

    def add_argparse_args(self, p):
        return self.real.add_argparse_args(p)

    def compute(self, x):
        self.state += 1
        if self.state > 1:
            return x[:0]
        return np.stack([x * 2 + i for i in range(2)], axis=1).view(type(x)) if self.vec is False else x * 2

    def reset(self):
        self.state = 0


class Audio(object):
    """stands for the reader of audio"""
    def __init__(self, real, recs):
        self.real, self.recs = real, recs

    def __call__(self, path, **kw):
        self.path = path
        return iter(self.recs)

    def filter_args(self, **kw):
        return self.real.filter_args(**kw)

    def add_argparse_args(self, p):
        return self.real.add_argparse_args(p)


@harness('P31', configs=[dict(prog='compute-energy-vad', out='ark'), dict(prog='compute-mfcc-feats', out='ark'), dict(prog='compute-mfcc-feats', out='h5')], patch=patch,
         bounds='3 recordings of up to 3 samples')
def extraction(E, prog, out):
    """features of each recording under its key, from a fresh state"""
    recs = [(k, E.typed(E.real('x' + k, n, lo=-5, hi=5), 'float32'), 16000) for k, n in (('b', 3), ('a', 1), ('c', 2))]
    real = MFCC if 'mfcc' in prog else EnergyVAD
    f = Feats(real)
    f.vec = real is not MFCC
    a = Audio(SequentialAudioReader, recs)
    ark, scp = E.tmp('f.' + out), E.tmp('f.scp')
    kw = {}
    if 'mfcc' in prog:
        kw['write_num_frames'] = E.tmp('nf')
    with swap(prog, real, f), swap(prog, SequentialAudioReader, a):
        run(E, prog, input='the_input', output='%s,scp:%s,%s' % (out, ark, scp), sample_frequency=8000, **kw)
    E.reach()
    E.claim('input', a.path == 'the_input' and f.kw['fs'] == 8000)
    with SDRF.create('scp:' + scp) as r:
        keys, data = r.read()
    E.claim('keys', [str(k) for k in keys] == ['b', 'a', 'c'])
    for (k, x, _), d in zip(recs, data):
        w = x * 2 if f.vec else np.stack([x * 2, x * 2 + 1], axis=1)
        E.claim('frames', d.shape == w.shape)
        E.eq('features', d, w, TOL)
    if kw:
        E.claim('numbers of frames', lines_of(kw['write_num_frames']) == ['b 3', 'a 1', 'c 2'])


@harness('P31', configs=[dict(prog=p) for p in ('ark2hyp', 'copy-feats', 'merge-h5-files')], patch=patch, bounds='3 records in 2 files, chunks of up to 3')
def conversion(E, prog):
    """every record is in the output"""
    recs = [('k%d' % i, E.typed(E.real('x%d' % i, (1 + i % 2, 2), lo=-5, hi=5), 'float32')) for i in (2, 0, 1)]
    ch = E.choice('chunk', 4) or None
    ins = []
    for j, rs in enumerate((recs[:2], recs[2:])):
        if prog == 'merge-h5-files':
            fp = E.tmp('i%d.h5' % j)
            HypDataWriter(fp).write([k for k, _ in rs], '', [x for _, x in rs])
            ins.append(fp)
        else:
            fp, sc = E.tmp('i%d.ark' % j), E.tmp('i%d.scp' % j)
            with aw.ArkDataWriter(fp, sc) as w:
                for k, x in rs:
                    w.write(k, x)
            ins.append(sc)
    out = E.tmp('o.h5')
    if prog == 'ark2hyp':
        run(E, prog, input_file=ins[0], output_file=out, chunk_size=ch)
        recs = recs[:2]
    elif prog == 'copy-feats':
        run(E, prog, input=['scp:' + i for i in ins], output='h5:' + out)
    else:
        run(E, prog, input_files=ins, output_path=out, chunk_size=ch)
    E.reach()
    with SDRF.create('h5:' + out) as r:
        keys, data = r.read()
    E.claim('keys', [str(k) for k in keys] == sorted(k for k, _ in recs))
    for k, d in zip(keys, data):
        w = dict(recs)[str(k)]
        E.claim('shape', d.shape == w.shape)
        E.eq('record', d, w, TOL)
