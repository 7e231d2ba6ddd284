"""Training programs: the saved model is the one of the listed vectors and of the options"""
import os
import numpy as np
from symx.harness import harness, s_or
from symx.symbytes import Disk, patch_bytes
from symx.fakeh5 import patch_h5
from symx.prog import Program, opts
from symx.util import array
from hyperion.io.data_rw_factory import DataWriterFactory as DWF
from hyperion.transforms import TransformList, CentWhiten, CentWhitenUP, LNorm, LNormUP, MVN, PCA, LDA, NDA, Gaussianizer
from hyperion.transforms.sb_sw import SbSw, NSbSw
from hyperion.classifiers import LinearGBE, LinearGBEUP, LinearSVMC, LogisticRegression, QScoringHomoGBE
from hyperion.helpers import PLDAFactory, VectorClassReader
from hyperion.helpers import plda_factory as pf
from hyperion.transforms import transform_list as tl
from hyperion.pdfs.core import Normal
from hyperion.pdfs.plda import FRPLDA, SPLDA, PLDA

TOL = 1e-4
P = {n: Program('train-%s.py' % n) for n in ('cw', 'cw-up', 'gaussianizer', 'mvn', 'pca', 'lda', 'nda', 'plda', 'linear-gbe', 'linear-gbe-up', 'linear-svmc',
                                             'logistic-regression', 'q-scoring-homo-gbe')}


def run(E, prog_, **kw):
    p = P[prog_]
    E.claim('the program can be loaded', p.error is None, hint=p.error)
    if p.error is None:
        p.main(*opts(**kw))


class swap(object):
    """another object for every name of a module that stands for a class of the repository"""
    def __init__(self, mod, real, val):
        self.d = mod.__dict__
        self.keys = [k for k, v in self.d.items() if v is real]
        self.real, self.val = real, val

    def __enter__(self):
        for k in self.keys:
            self.d[k] = self.val

    def __exit__(self, *a):
        for k in self.keys:
            self.d[k] = self.real


def write_lines(fp, lines):
    with open(fp, 'w') as f:
        for l in lines:
            f.write(l + '\n')
    return fp


def vectors(E, n, d, classes=None, lo=-5):
    """n of n+1 stored vectors in the order of a list: options, vectors"""
    fp = E.tmp('v.h5')
    v = {'k%d' % i: E.real('v%d' % i, d, lo=lo, hi=5) for i in range(n + 1)}
    with DWF.create('h5:' + fp) as w:
        w.write(list(v), [E.typed(x, 'float64') for x in v.values()])
    out = E.choice('left out', 2)
    keys = [k for i, k in enumerate(v) if i != out]
    if E.bool('turn'):
        keys = keys[::-1]
    lst = write_lines(E.tmp('list'), ['%s %s' % (k, classes[i] if classes else 'x') for i, k in enumerate(keys)])
    return dict(iv_file='h5:' + fp, train_list=lst), array(E, [[e for e in v[k]] for k in keys])


def preproc(E, d, cls):
    """preprocessing of d dimensions by one or two transforms: options, function, number of transforms"""
    n = E.choice('preproc', 3)
    if not n:
        return {}, lambda x: x, 0
    m = np.arange(d) * 0.5 + 0.25
    fp = E.tmp('pre.h5')
    ts = [CentWhiten(mu=m, T=2 * np.eye(d), name='t0') if cls is CentWhiten else MVN(mu=m, s=np.ones(d) * 0.5, name='t0')]
    if n == 2:
        ts.append(CentWhiten(mu=-m, T=-np.eye(d), name='t1') if cls is CentWhiten else MVN(mu=-m, s=-np.ones(d), name='t1'))
    pre = TransformList(ts, name='lst' if E.bool('named') else None)
    pre.save(fp)
    return dict(preproc_file=fp), lambda x: pre_value(x, m, n), n


def pre_value(x, m, n):
    y = (x - m) * 2.0
    return y if n == 1 else -(y + m)


def saved(E, cls, out, kw, npre, name):
    """transforms of the output file; the last is the trained one"""
    if kw.get('no_save_tlist'):
        m = cls.load(out)
        E.claim('class', type(m) is cls)
        E.claim('name', m.name == name)
        return m
    l = TransformList.load(out)
    n = 0 if kw.get('no_append_tlist') else npre
    E.claim('transforms', len(l.transforms) == n + 1 and type(l.transforms[-1]) is cls)
    E.claim('name', l.transforms[-1].name == (l.name + '/' if n and l.name else '') + name)
    if n:
        d = len(l.transforms[0].mu)
        y = x = np.array([[1.5, -2.0, 0.5, 4.0][:d]])
        for i, t in enumerate(l.transforms[:-1]):
            E.claim('first', t.name.split('/')[-1] == 't%d' % i)
            y = t.predict(y)
        E.eq('preprocessing', y, pre_value(x, np.arange(d) * 0.5 + 0.25, n), TOL)
    return l.transforms[-1]


def tlist(E):
    c = E.choice('tlist', 3)
    return {} if c == 0 else dict(no_append_tlist=True) if c == 1 else dict(no_save_tlist=True)


def patch(env):
    p = patch_bytes(env)
    p['extra'] = list(p['extra']) + list(patch_h5(env)['extra'])
    p['setattrs'] = [x for x in p['setattrs'] if x[1] != 'INT_OBJ']
    return p


def rows(x):
    """one row of the elements of an array"""
    return np.concatenate([x[i] for i in range(len(x))])


class Stub(object):
    """classes of the repository with another fit, which keeps the data it gets (the real ones are decided by P12, P21-P24)"""
    @staticmethod
    def of(base, fit, **kw):
        return type(base.__name__, (base,), dict(fit=fit, predict=lambda self, x: x, __module__=base.__module__, **kw))

    @staticmethod
    def mu_t(self, x, *a):
        if self.update_mu:
            self.mu = rows(x)
        if self.update_T:
            self.T = x[:, :1] * 1.0

    @staticmethod
    def mvn(self, x):
        self.mu, self.s = rows(x), x[0] * 1.0

    @staticmethod
    def gauss(self, x):
        self.r = x * 1.0

    @staticmethod
    def lda(self, x, class_ids):
        self.mu, self.T = rows(x), np.concatenate([np.asarray(class_ids), [-1 if self.lda_dim is None else self.lda_dim]])[:, None] * 1.0

    @staticmethod
    def nda(self, mu, Sb, Sw, nda_dim=None):
        self.mu, self.T = mu, np.concatenate([Sb, Sw, np.array([-1.0 if nda_dim is None else nda_dim])])[:, None]


class Scatter(object):
    def __init__(self, K=10, alpha=1):
        self.K, self.alpha = K, alpha
        self.Sb = self.Sw = np.zeros((1, 1))

    def fit(self, x, class_ids, *a, **k):
        if type(self) is Scatter and self.K is not None:
            self.mu = rows(x)
            self.Sb, self.Sw = _Ids(class_ids), _Ids([self.K, self.alpha])


class _Ids(np.ndarray):
    """vector that can be printed as a corner of a matrix"""
    def __new__(cls, v):
        return np.asarray(v, dtype=float).view(cls)

    def __getitem__(self, i):
        return None if isinstance(i, tuple) else np.asarray(self)[i]


class NoNormal(object):
    def __init__(self, x_dim=1):
        self.mu, self.Sigma = np.zeros(1), np.zeros((1, 1))

    def fit(self, x=None):
        pass


FITS = {CentWhiten: Stub.mu_t, LNorm: Stub.mu_t, CentWhitenUP: Stub.mu_t, LNormUP: Stub.mu_t, PCA: Stub.mu_t, MVN: Stub.mvn, LDA: Stub.lda, NDA: Stub.nda,
        Gaussianizer: Stub.gauss}


class fits(object):
    """the classes of a training program are stubs"""
    def __init__(self, prog, *classes):
        self.stub = {c: Stub.of(c, FITS[c]) for c in classes}
        self.swaps = [swap(m, c, v) for m in (P[prog].mod, tl) for c, v in self.stub.items()]
        self.swaps += [swap(P[prog].mod, NSbSw, Scatter), swap(P[prog].mod, SbSw, Scatter), swap(P[prog].mod, Normal, NoNormal)]

    def __enter__(self):
        for w in self.swaps:
            w.__enter__()

    def __exit__(self, *a):
        for w in self.swaps:
            w.__exit__()


CLASSES = dict(mvn=MVN, pca=PCA, lda=LDA, nda=NDA, gaussianizer=Gaussianizer)


@harness('P32', configs=[dict(prog=p, up=u) for p in ('cw', 'cw-up', 'pca') for u in (None, 'update_mu', 'update_t')] + [dict(prog=p, up=None) for p in ('mvn', 'lda', 'nda', 'gaussianizer')],
         patch=patch, bounds='3 or 4 vectors of dimension 2 or 4, any vector left out, both orders, with and without preprocessing, 3 output formats')
def transforms(E, prog, up):
    """the saved transform is that of the preprocessed vectors of the list"""
    cl = ['b', 'a', 'b', 'c'] if prog in ('lda', 'nda') else None
    d = 4 if prog == 'cw-up' else 2
    kw, x = vectors(E, 4 if cl else 3, d, cl)
    pk, f, npre = preproc(E, d, CentWhiten if prog == 'mvn' else MVN)
    kw.update(pk)
    kw.update(tlist(E))
    x = f(x)
    if up:
        kw[up] = 'false'
    out = E.tmp('o.h5')
    kw['name'] = 'tf'
    if prog in ('cw', 'cw-up'):
        if E.bool('only whitening'):
            kw['no_lnorm'] = True
        cls = {'cw': (LNorm, CentWhiten), 'cw-up': (LNormUP, CentWhitenUP)}[prog]['no_lnorm' in kw]
    else:
        cls = CLASSES[prog]
    dim = None
    if prog in ('pca', 'lda', 'nda') and E.bool('dim'):
        dim = 1
        kw[prog + '_dim'] = 1
    if prog == 'gaussianizer':
        kw['max_vectors'] = 7
    if prog == 'nda':
        kw['k'], kw['alpha'] = 3, 1.5
    with fits(prog, cls):
        run(E, prog, output_path=out, **kw)
    E.reach()
    m = saved(E, cls, out, kw, npre, 'tf')
    flat = rows(x)
    if prog in ('lda', 'nda'):
        E.eq('vectors', m.mu, flat, TOL)
        t = [1, 0, 1, 2] + ([] if prog == 'lda' else [3, 1.5]) + [-1 if dim is None else dim]
        E.eq('classes, parameters', m.T[:, 0], np.array(t, dtype=float), TOL)
    elif prog == 'gaussianizer':
        E.eq('vectors', m.r, x, TOL)
        E.claim('number of vectors', m.max_vectors == 7)
    elif prog == 'mvn':
        E.eq('vectors', m.mu, flat, TOL)
        E.eq('deviations', m.s, x[0], TOL)
    else:
        E.claim('fixed parameters', (m.mu is None) == (up == 'update_mu') and (m.T is None) == (up == 'update_t'))
        if m.mu is not None:
            E.eq('vectors', m.mu, flat, TOL)
        if m.T is not None:
            E.eq('vectors 2', m.T, x[:, :1], TOL)
        E.claim('options', m.update_mu is (up != 'update_mu') and m.update_T is (up != 'update_t'))
        if prog == 'pca':
            E.claim('dimension', m.pca_dim == dim)


@harness('P32', configs=[dict(prog=p) for p in ('cw', 'cw-lnorm', 'cw-up', 'cw-up-lnorm', 'pca', 'gaussianizer')], patch=patch,
         bounds='3 vectors of dimension 2; the initial model is a file of a model or a transform of a list')
def initial_model(E, prog):
    """--input-path continues from that model: the fixed parameters are kept"""
    kw, x = vectors(E, 3, 4 if 'up' in prog else 2)
    cls = {'cw': CentWhiten, 'cw-lnorm': LNorm, 'cw-up': CentWhitenUP, 'cw-up-lnorm': LNormUP}.get(prog) or CLASSES[prog]
    base = prog.replace('-lnorm', '')
    mu = E.real('mu', 2, lo=-3, hi=3)
    keep = E.bool('keep mean')
    if prog == 'gaussianizer':
        m0, other = cls(max_vectors=5, name='tf'), cls(max_vectors=6, name='tf0')
    else:
        m0, other = cls(mu=mu, T=np.eye(2), update_mu=not keep, name='tf'), cls(mu=mu + 1, T=np.eye(2), update_mu=keep, name='tf0')
    fp, out = E.tmp('m0.h5'), E.tmp('m.h5')
    if E.bool('list'):
        TransformList([other, m0]).save(fp)
    else:
        m0.save(fp)
    if base in ('cw', 'cw-up') and 'lnorm' not in prog:
        kw['no_lnorm'] = True
    with fits(base, cls):
        run(E, base, input_path=fp, output_path=out, name='tf', **kw)
    E.reach()
    m = saved(E, cls, out, kw, 0, 'tf')
    if prog == 'gaussianizer':
        E.eq('vectors', m.r, x, TOL)
        E.claim('number of vectors', m.max_vectors == 5)
    else:
        E.claim('option', m.update_mu is (not keep))
        E.eq('mean', m.mu, mu if keep else rows(x), TOL)
        E.eq('vectors', m.T, x[:, :1], TOL)


class kept(object):
    """a class of classifiers or PLDA whose fit and save only record their arguments; its constructor is the real one"""
    def __init__(self, mod, cls, *others):
        rec = self.rec = {}

        def fit(self, *a, **k):
            rec.update(model=self, a=a, k=k)
            return rec.get('elbo')

        def save(self, path):
            rec['path'] = path
        self.stub = type(cls.__name__, (cls,), dict(fit=fit, save=save))
        self.swaps = [swap(mod, cls, self.stub)]

    def __enter__(self):
        for w in self.swaps:
            w.__enter__()
        return self.rec

    def __exit__(self, *a):
        for w in self.swaps:
            w.__exit__()


def selection(E, kw):
    """options of the class reader: the positions of the list that are used and their class numbers"""
    c = E.choice('selection', 4)
    cl = ['b', 'a', 'b', 'c']
    if c == 1:
        kw.update(max_spc=1, spc_pruning_mode='last')
        return [0, 1, 3], [1, 0, 2]
    if c == 2:
        kw.update(min_spc=2)
        return [0, 2], [0, 0]
    if c == 3:
        kw.update(class2int_file=write_lines(E.tmp('c2i'), ['b 0', 'c 1', 'a 2']))
        return [0, 1, 2, 3], [0, 2, 0, 1]
    return [0, 1, 2, 3], [1, 0, 1, 2]


GBE = dict(no_update_mu=True, no_update_W=True, balance_class_weight=True, prior='file', prior_beta=3, prior_nu=4, post_beta=5, post_nu=6, name='nm')
GBE_ = dict(update_mu=False, update_W=False, balance_class_weight=True, prior='file', prior_beta=3, prior_nu=4, post_beta=5, post_nu=6, name='nm')
GBE0 = dict(update_mu=True, update_W=True, balance_class_weight=False, prior=None, prior_beta=16, prior_nu=16, post_beta=None, post_nu=None)
# program: class, options, attributes with them, attributes without them
CL = {'linear-gbe': (LinearGBE, GBE, GBE_, GBE0), 'linear-gbe-up': (LinearGBEUP, GBE, GBE_, GBE0),
      'linear-svmc': (LinearSVMC, dict(penalty='l1', c=2.5, loss='hinge', no_use_bias=True, bias_scaling=3, max_iter=7, no_dual=True, tol=0.25, multi_class='crammer_singer',
                                       balance_class_weight=True, name='nm', lr_seed=5),
                      dict(penalty='l1', C=2.5, loss='hinge', use_bias=False, fit_intercept=False, intercept_scaling=3, max_iter=7, dual=False, tol=0.25,
                           multi_class='crammer_singer', class_weight='balanced', name='nm', seed=5),
                      dict(penalty='l2', C=1, loss='squared_hinge', use_bias=True, fit_intercept=True, max_iter=100, dual=True, multi_class='ovr', class_weight=None, seed=1024)),
      'logistic-regression': (LogisticRegression, dict(penalty='l1', lambda_reg=0.5, no_use_bias=True, bias_scaling=3, solver='saga', max_iter=7, dual=True, tol=0.25,
                                                       multi_class='multinomial', num_jobs=2, no_warm_start=True, name='nm', lr_seed=5),
                              dict(penalty='l1', C=2, use_bias=False, fit_intercept=False, intercept_scaling=3, solver='saga', max_iter=7, dual=True, tol=0.25,
                                   multi_class='multinomial', n_jobs=2, warm_start=False, name='nm', seed=5),
                              dict(penalty='l2', C=1e5, use_bias=True, fit_intercept=True, solver='lbfgs', max_iter=100, dual=False, warm_start=True, multi_class='ovr', seed=1024)),
      'q-scoring-homo-gbe': (QScoringHomoGBE, dict(balance_class_weight=True, prior='file', prior_n=3, post_n=4, name='nm'),
                             dict(balance_class_weight=True, prior='file', prior_N=3, post_N=4, name='nm'), dict(balance_class_weight=False, prior=None, prior_N=None, post_N=None))}


def attribute(m, k):
    """attribute of a model or of the one it wraps"""
    w = m.__dict__.get('svm', m.__dict__.get('lr'))
    if k == 'seed':
        s = w.random_state
        for seed in (5, 1024):
            r = np.random.RandomState(seed)
            if np.array_equal(s.get_state()[1], r.get_state()[1]):
                return seed
        return None
    if k in m.__dict__ or w is None:
        return getattr(m, k)
    return getattr(w, k)


@harness('P32', configs=[dict(prog=p) for p in CL], patch=patch, bounds='4 vectors of 3 classes of dimension 2 or 4, any of 5 left out, both orders, 4 selections of the class reader, every option with one value and its default')
def classifiers(E, prog):
    """the classifier is trained with the preprocessed vectors of the selected rows, their class numbers and the given options"""
    cls, with_, want, default = CL[prog]
    d = 4 if prog.endswith('up') else 2
    kw, x = vectors(E, 4, d, ['b', 'a', 'b', 'c'])
    pk, f, _ = preproc(E, d, MVN)
    kw.update(pk)
    idx, ids = selection(E, kw)
    o = E.bool('options')
    if o:
        kw.update(with_)
    out = E.tmp('o.h5')
    with kept(P[prog].mod, cls) as rec:
        run(E, prog, output_path=out, **kw)
    E.reach()
    m = rec['model']
    E.claim('saved', rec['path'] == out)
    E.eq('vectors', rec['a'][0], f(x[np.array(idx)]), TOL)
    E.claim('classes', list(rec['a'][1]) == ids)
    for k, v in (want if o else default).items():
        g = attribute(m, k)
        E.claim('option ' + k, g == v if not isinstance(v, float) else abs(g - v) <= 1e-9 * abs(v))


PL = {'frplda': FRPLDA, 'splda': SPLDA, 'plda': PLDA}


@harness('P32', configs=[dict(kind=k, val=v, o=o) for k in PL for v in (False, True) for o in (False, True)], patch=patch,
         bounds='4 vectors of 3 classes of dimension 2, any of 5 left out, both orders; validation list; every option with one value and its default; 2 epochs')
def plda(E, kind, val, o):
    """PLDA is trained with the vectors, classes, epochs and options given; the bounds of the likelihood are written by epoch"""
    cls = PL[kind]
    kw, x = vectors(E, 4, 2, ['b', 'a', 'b', 'c'])
    pk, f, _ = preproc(E, 2, MVN)
    kw.update(pk)
    idx, ids = selection(E, kw)
    kw['plda_type'] = kind
    if val:
        keys = [l.split()[0] for l in open(kw['train_list']).read().splitlines()]
        sel = [k for k in ('max_spc', 'min_spc', 'class2int_file') if k in kw]
        vl = [keys[2], keys[0], keys[1]]
        kw['val_list'] = write_lines(E.tmp('val'), ['%s %s' % (k, c) for k, c in zip(vl, 'aab')])
        vi, vid = ([0, 2], [0, 1]) if 'max_spc' in sel else ([0, 1], [0, 0]) if 'min_spc' in sel else ([0, 1, 2], [2, 2, 0] if sel else [0, 0, 1])
        xv = array(E, [x[2], x[0], x[1]])[np.array(vi)]
    n = 2
    kw['epochs'] = n
    if o:
        kw.update(y_dim=1, z_dim=2, diag_W=True, no_update_mu=True, no_update_V=True, no_update_U=True, no_update_B=True, no_update_w=True, no_update_d=True, floor_id=0.5,
                  ml_md='md', name='nm', md_epochs=['0', '1'])
    want = dict(fullcov_W=not o, update_mu=not o, update_V=not o, update_U=not o, update_B=not o, update_W=not o, update_D=not o, floor_iD=0.5 if o else 1e-5,
                y_dim=1 if o else 150, z_dim=2 if o else 400, name='nm' if o else 'plda')
    has = dict(frplda=('fullcov_W', 'update_mu', 'update_B', 'update_W', 'name'), splda=('fullcov_W', 'update_mu', 'update_V', 'update_W', 'y_dim', 'name'),
               plda=('update_mu', 'update_V', 'update_U', 'update_D', 'floor_iD', 'y_dim', 'z_dim', 'name'))[kind]
    out = E.tmp('o.h5')
    k = kept(pf, cls)
    el = [np.array([1.5 * (i + 1), 2.5 * (i + 1)]) for i in range(4 if val else 2)]
    k.rec['elbo'] = tuple(el)
    with k as rec:
        run(E, 'plda', output_path=out, **kw)
    E.reach()
    m = rec['model']
    E.claim('class', isinstance(m, cls))
    E.claim('saved', rec['path'] == out)
    a = rec['k']
    E.eq('vectors', rec['a'][0], f(x[np.array(idx)]), TOL)
    E.claim('classes', list(rec['a'][1]) == ids)
    E.claim('validation', (a['x_val'] is not None) == val and (a['class_ids_val'] is not None) == val)
    if val:
        E.eq('validation vectors', a['x_val'], f(xv), TOL)
        E.claim('validation classes', list(a['class_ids_val']) == vid)
    E.claim('epochs', a['epochs'] == n and a['ml_md'] == ('md' if o else 'ml+md') and a['md_epochs'] == ([0, 1] if o else None))
    for k in has:
        E.claim('option ' + k, getattr(m, k) == want[k])
    t = np.loadtxt(os.path.splitext(out)[0] + '.csv', delimiter=',')
    E.claim('bounds by epoch', t.shape == (n, 1 + len(el)) and bool(np.all(t == np.array([np.arange(n)] + el).T)))
