"""Oracle: scikit-learn's SVC/SVR(kernel='precomputed', C=10) trained on the Gram matrix obtained by
direct evaluation of the kernel function (own cosine normalization); labels are compared where the
decision is clear, regression values with a tolerance derived from perturbed reference fits;
metamorphic: batches, order, repetition."""
import numpy as np
from hypothesis import strategies as st
from sklearn.svm import SVC, SVR

from pbt.core import Sub
from pbt import gens as g
from pbt import svm

PSD = ('linear', 'gaussian', 'gaussian', 'laplacian', 'poly', 'chi2', 'custom')


UNIT = 2.0 ** -27
FAR = 2.0 ** 24


def points(kind, n, d, s, y=None):
    """Well-scaled positive samples (chi-squared needs non-negative values)."""
    r = np.random.RandomState(s)
    X = r.rand(n, d) * 2 + 0.25
    if kind == 'blobs':
        X = X * 0.5 + 0.6 * (np.arange(n) % 3)[:, None]
    elif kind == 'grid':
        X = r.randint(1, 6, (n, d)) / 2.0
    elif kind == 'int':
        X = r.randint(1, 6, (n, d))
    elif kind == 'f4':
        X = (np.round(X * 8) / 8).astype('f4')
    elif kind == 'far':  # only differences are of moderate size
        X = np.round(X * 64) / 64 + FAR
    elif kind == 'small':  # another unit, to which the kernel has to be adapted
        X = X * UNIT
    return X


def labels(kind, n, s, noise):
    r = np.random.RandomState(s)
    k = {'two': 2, 'pm1': 2, 'str': 2, 'str3': 3, 'three': 3, 'four': 4, 'float': 2, 'i1': 2,
         'obj': 2, 'far': 3, 'bool': 2, 'unsorted': 2}[kind]
    y = np.arange(n) % k
    y = np.where(r.rand(n) < noise, r.permutation(y), y)
    y[:k] = np.arange(k)
    names = {'two': [0, 1], 'pm1': [-1, 1], 'str': ['no', 'yes'], 'str3': ['a', 'bbb', 'cc'],
             'three': [0, 1, 2], 'four': [1, 2, 3, 4], 'float': [1.0, 4.0],
             'i1': np.array([3, 7], 'i1'), 'far': [-40, 7, 1000], 'bool': [False, True],
             'obj': np.array(['cat', 'doggy'], dtype=object), 'unsorted': [5, 2]}[kind]
    return np.asarray(names)[y]


def fresh_gram(spec, X, T, normalized):
    return svm.train_test(g.make_kernel(spec), X, T, normalized)


def train_matrices(spec, X, T, normalized):
    """(K(X, X), K(T, X)) with the symmetric part evaluated once."""
    k = g.make_kernel(spec)
    K = svm.gram(k, X, X)
    iu = np.triu_indices(len(X), 1)
    K.T[iu] = K[iu]
    C = svm.gram(k, T, X)
    if normalized:
        dx, dt = svm.self_values(k, X), svm.self_values(k, T)
        K, C = svm.normed(K, dx, dx), svm.normed(C, dt, dx)
    return K, C


def clear_labels(K, y, C, w, make=None):
    """(labels, mask of rows whose label is beyond doubt)."""
    make = make or (lambda: SVC(kernel='precomputed', C=10, decision_function_shape='ovo'))
    est = make().fit(K, y, sample_weight=w)
    out = est.predict(C)
    dec = est.decision_function(C).reshape(len(C), -1)
    clear = (np.abs(dec) > 2e-2).all(1)
    r = np.random.RandomState(0)
    for eps in (1e-9, 1e-7):
        # a congruence, which keeps the matrix positive semi-definite: the solver may not
        # terminate otherwise
        e = 1 + r.randn(len(K)) * eps
        other = make().set_params(max_iter=100000).fit(K * np.outer(e, e), y, sample_weight=w)
        d2 = other.decision_function(C * (1 + eps * r.randn(*C.shape))).reshape(len(C), -1)
        clear &= (np.sign(d2) == np.sign(dec)).all(1)
        clear &= (np.abs(dec) > 10 * np.abs(d2 - dec)).all(1)
    return out, clear


def reg_values(K, y, C, w, make=None):
    """(values, tolerance)"""
    make = make or (lambda: SVR(kernel='precomputed', C=10))
    est = make().fit(K, y, sample_weight=w)
    out = est.predict(C)
    r = np.random.RandomState(0)
    scale = max(1.0, float(np.abs(y).max()))
    tol = np.full(len(C), 5e-3 * scale)
    for eps in (1e-9, 1e-7):
        e = 1 + r.randn(len(K)) * eps
        o2 = make().set_params(max_iter=100000).fit(K * np.outer(e, e), y, sample_weight=w).predict(
            C * (1 + eps * r.randn(*C.shape)))
        tol = np.maximum(tol, 10 * np.abs(o2 - out))
    return out, tol


LABELS = ('two', 'pm1', 'str', 'str3', 'three', 'four', 'float', 'i1', 'obj', 'far', 'bool',
          'unsorted')


@st.composite
def cases(draw, reg):
    n = draw(g.about(8, 22))
    c = dict(kernel=draw(g.tame(PSD)), n=n, d=draw(st.integers(1, 4)), s=draw(g.seeds),
             xkind=draw(st.sampled_from(('unif', 'unif', 'blobs', 'grid', 'int', 'f4'))),
             normalized=draw(st.sampled_from((True, False, None))),
             noise=draw(st.sampled_from((0.0, 0.2, 0.4))),
             weights=draw(st.sampled_from((None, None, 'arr', 'list', 'extreme', 'ones'))),
             test=draw(st.sampled_from(('new', 'new', 'same n', 'train', 'one', 'mixed', 'big',
                                        'perm'))),
             asl=draw(st.booleans()), layout=draw(st.sampled_from(('C', 'F', 'rows', 'rev'))),
             default=draw(st.integers(0, 9)) == 0,
             rows=draw(st.one_of(st.sampled_from((33, 40, 65)), st.integers(30, 70),
                                 *[st.sampled_from(f) for f in [g.fresh_sizes(8, 30, 320)] if f])))
    if c['kernel']['k'] in ('gaussian', 'laplacian') and draw(st.integers(0, 4)) == 0:
        k = c['kernel']
        c.update(xkind='small', default=False)
        p = 'sigma' if k['k'] == 'gaussian' else 'gamma'
        v = k.get(p, g.DEFAULTS[k['k']][p])
        k[p] = v * UNIT if p == 'sigma' else v / UNIT
    elif c['kernel']['k'] in ('gaussian', 'laplacian') and draw(st.integers(0, 4)) == 0:
        c['xkind'] = 'far'
    if reg:
        c['y'] = draw(st.sampled_from(('lin', 'wavy', 'int', 'f4', 'small', 'noise')))
        c['cls'] = draw(st.sampled_from(('regressor', 'regressor', 'svr')))
    else:
        c['y'] = draw(st.sampled_from(LABELS))
        c['learner'] = draw(st.sampled_from((None, 'SVC', 'svm')))
    return c


def real_targets(kind, X, s):
    r = np.random.RandomState(s)
    X = X.astype('f8')
    X = X - FAR if X.min() > FAR / 2 else X
    if kind == 'lin':
        return X.sum(1) + 0.1 * r.randn(len(X))
    if kind == 'wavy':
        return np.sin(3 * X[:, 0]) * 2
    if kind == 'int':
        return r.randint(-5, 6, len(X))
    if kind == 'f4':
        return X.sum(1).astype('f4')
    if kind == 'small':
        return X[:, 0] * 0.3
    return r.randn(len(X)) * 3


def setup(case, reg):
    X = g.lay(points(case['xkind'], case['n'], case['d'], case['s']), case['layout'])
    r = np.random.RandomState(case['s'] ^ 77)
    m = {'one': 1, 'same n': case['n'], 'big': case['rows']}.get(case['test'], 7)
    if case['xkind'] == 'small' and case['test'] not in ('perm', 'train'):
        m = case['n'] if case['s'] % 2 else m
    T = X if case['test'] == 'train' else X[r.permutation(case['n'])] if case['test'] == 'perm' \
        else points(case['xkind'], m, case['d'], case['s'] ^ 55)
    if case['test'] == 'mixed':
        T = np.concatenate([T, X[:4]])
    y = real_targets(case['y'], X / UNIT if case['xkind'] == 'small' else X, case['s']) if reg \
        else labels(case['y'], case['n'], case['s'], case['noise'])
    w = None
    if case['weights']:
        w = r.rand(case['n']) + 0.2
        if case['weights'] == 'extreme':
            w = np.where(r.rand(case['n']) < 0.4, 0.004, 3.0)
        if case['weights'] == 'ones':
            w = np.ones(case['n'])
    return X, T, y, w


def fit(case, reg, X, y, w):
    from kernelmethods import algorithms as alg
    kw = {} if case['normalized'] is None else dict(normalized=case['normalized'])
    spec = {'k': 'gaussian', 'sigma': 2.0} if case['default'] else case['kernel']
    if not case['default']:
        kw['k_func'] = g.make_kernel(spec)
    if reg:
        est = alg.KernelMachineRegressor(**kw) if case['cls'] == 'regressor' \
            else alg.KernelMachine(learner_id='SVR', **kw)
    else:
        if case['learner']:
            kw['learner_id'] = case['learner']
        est = alg.KernelMachine(**kw)
    Xin = X.tolist() if case['asl'] and X.dtype != np.float32 else X
    yin = y.tolist() if case['asl'] and y.dtype.kind in 'iUf' and y.dtype.itemsize != 1 and \
        y.dtype != np.float32 else y
    win = w.tolist() if w is not None and case['weights'] == 'list' else w
    if win is None:
        est.fit(Xin, yin)
    else:
        est.fit(Xin, yin, sample_weight=win)
    return est, spec


def batches(est, T, first, s):
    """Predictions of the rows of T in other batches, as functions of the row."""
    m = len(T)
    r = np.random.RandomState(s)
    perm = r.permutation(m)
    out = [('shuffled', np.asarray(est.predict(T[perm]))[np.argsort(perm)]),
           ('repeated', est.predict(T)),
           ('reversed', est.predict(T[::-1])[::-1]),
           ('one by one', np.array([est.predict(T[i:i + 1])[0] for i in range(m)])),
           ('duplicated', est.predict(np.concatenate([T, T]))[m:])]
    if m > 2:
        out.append(('split', np.concatenate([est.predict(T[:2]), est.predict(T[2:])])))
    return out


def run_cls(case, ctx):
    X, T, y, w = setup(case, False)
    if not case['default'] and not svm.calm(g.make_kernel(case['kernel']), X, case['normalized']):
        return
    est, spec = fit(case, False, X, y, w)
    K, C = train_matrices(spec, X, T, bool(case['normalized']))
    if not (np.isfinite(K).all() and np.isfinite(C).all()):
        return
    ref, clear = clear_labels(K, y, C, w)
    got = est.predict(T)
    g.require(isinstance(got, np.ndarray) and got.shape == (len(T),), 'predictions {!r}', got)
    g.require(got.dtype.kind == y.dtype.kind, 'type of predictions is {}, of targets {}', got.dtype,
              y.dtype)
    classes = np.unique(y)
    g.require(np.array_equal(est.classes_, classes), 'classes_ {!r} instead of {!r}', est.classes_,
              classes)
    g.require(all(v in classes.tolist() for v in got.tolist()), 'predictions {!r} not among {!r}',
              got, classes)
    bad = np.flatnonzero(clear & (got != ref))
    g.require(len(bad) == 0, 'row {}: predicted {!r} instead of {!r}', bad[:1], got[bad[:1]],
              ref[bad[:1]])
    for what, other in batches(est, T, got, case['s']):
        diff = np.flatnonzero(clear & (np.asarray(other) != got))
        g.require(len(diff) == 0, 'row {} predicted differently {}', diff[:1], what)
    acc = est.score(X, y)
    g.require(abs(acc - np.mean(est.predict(X) == y)) < 1e-12, 'score {} is not the accuracy', acc)
    ctx.label(spec['k'], case['y'], case['test'], 'weights' if w is not None else 'no weights')
    ctx.interesting(clear.any() and len(np.unique(ref)) > 1)


def run_reg(case, ctx):
    X, T, y, w = setup(case, True)
    if case['cls'] == 'svr' and y.dtype.kind != 'f':
        return
    if not case['default'] and not svm.calm(g.make_kernel(case['kernel']), X, case['normalized']):
        return
    est, spec = fit(case, True, X, y, w)
    K, C = train_matrices(spec, X, T, bool(case['normalized']))
    if not (np.isfinite(K).all() and np.isfinite(C).all()):
        return
    ref, tol = reg_values(K, y.astype('f8'), C, w)
    got = est.predict(T)
    g.require(isinstance(got, np.ndarray) and got.shape == (len(T),), 'predictions {!r}', got)
    g.require(got.dtype.kind == 'f', 'type of predictions is {}', got.dtype)
    g.same('prediction', got, ref, tol)
    for what, other in batches(est, T, got, case['s']):
        g.same('prediction ' + what, np.asarray(other), got, 1e-6 * (1 + np.abs(got)))
    ctx.label(spec['k'], case['y'], case['test'], 'weights' if w is not None else 'no weights')
    ctx.interesting((tol < 0.3 * (np.ptp(y.astype('f8')) + 1e-9)).any())


SUBS = [
    Sub('classifier', lambda: cases(False), run_cls, n=2400,
        rule='clear predictions of more than one class'),
    Sub('regressor', lambda: cases(True), run_reg, n=1600,
        rule='reference predictions are stable under tiny perturbations'),
]
