"""Oracle: reference scores of every candidate kernel on the training data; the matrix trained on must be
that of a candidate with the maximal score, and predictions those of scikit-learn's SVC/SVR on the
directly evaluated Gram matrices of that candidate (compared where clear, see C18); metamorphic:
batches; the bucket supplied is compared before and after."""
import numpy as np
from hypothesis import strategies as st
from sklearn.svm import SVC, SVR

from pbt.core import Sub, Violation
from pbt import gens as g
from pbt import svm
from pbt.props import c15, c18

PARAMS = (('poly', 'degree'), ('gaussian', 'sigma'), ('laplacian', 'gamma'), ('sigmoid', 'gamma'))


@st.composite
def cases(draw, reg, cv=False):
    kind = 'custom' if cv else draw(st.sampled_from(('custom',) * 6 + ('light', 'linear_only',
                                                                       'exhaustive', 'Light')))
    pos = st.lists(g._fparam(0.25, 8), min_size=1, max_size=2)
    grids = [draw(st.one_of(st.none(), st.lists(st.integers(1, 3), min_size=1, max_size=2))),
             draw(st.one_of(st.none(), pos)), draw(st.one_of(st.none(), pos))]
    out = dict(reg=reg, method='cv_risk' if cv else 'align/corr', bucket=kind, grids=grids,
                bad=draw(st.sampled_from((None, None, None, 'nan', 'inf'))) if kind == 'custom'
                else None,
                normalized=draw(st.sampled_from((True, True, False))) or kind != 'custom' or cv,
                before=draw(st.sampled_from(('fresh', 'fresh', 'attached'))),
                n=draw(g.about(18, 24, 70) if cv else g.about(8, 22)), d=draw(st.integers(1, 3)),
                s=draw(g.seeds), C=draw(st.sampled_from((1.0, 0.05, 0.3, 5.0, 40.0))),
                eps=draw(st.sampled_from((0.1, 0.01, 0.5))), shrinking=draw(st.booleans()),
                tol=draw(st.sampled_from((1e-3, 1e-4))), given=draw(st.booleans()),
                xkind=draw(st.sampled_from(('unif', 'unif', 'blobs', 'grid', 'int'))),
                y=draw(st.sampled_from(('lin', 'wavy', 'noise', 'small') if reg else
                                       ('two', 'pm1', 'three', 'unsorted', 'float', 'i1', 'far'))),
                noise=draw(st.sampled_from((0.0, 0.2, 0.4))), asl=draw(st.booleans()),
                weights=draw(st.sampled_from((None, None, 'arr', 'extreme', 'list'))),
                test=draw(st.sampled_from(('new', 'new', 'same n', 'train', 'one', 'mixed', 'perm', 'big'))),
                rows=draw(st.one_of(st.integers(25, 70), *[
                    st.sampled_from(f) for f in [g.fresh_sizes(8, 24, 320)] if f])),
                layout=draw(st.sampled_from(('C', 'F', 'rows', 'rev'))))
    if kind == 'custom' and not cv and draw(st.integers(0, 4)) == 0:
        gauss, lapl = grids[1:]
        if gauss or lapl:
            out.update(xkind='small', normalized=False,
                       grids=[None, gauss and [v * c18.UNIT for v in gauss],
                              lapl and [v / c18.UNIT for v in lapl]])
    return out


def bucket_specs(case):
    if case['bucket'] != 'custom':
        return c15.specs_of(c15.GRIDS[case['bucket'].lower()])
    return c15.specs_of(case['grids'] + [None, None])


def make_bucket(case):
    from kernelmethods.base import KernelFromCallable, KernelMatrix
    from kernelmethods.sampling import KernelBucket
    kb = KernelBucket(*case['grids'], sigmoid_gamma_values=None, sigmoid_offset_values=None,
                      normalize_kernels=case['normalized'])
    if case['bad']:
        v = float(case['bad'])
        kb.append(KernelMatrix(KernelFromCallable(
            lambda x, y: v if np.array_equal(x, y) else float(np.dot(x, y)), name='bad'),
            normalized=False))
    return kb


def state(kb):
    return (kb.num_samples, kb.name, [id(m) for m in kb], [str(m) for m in kb],
            [m.num_samples for m in kb])


def candidates(case, X, y):
    """[(spec, matrix, lowest and highest score)]; None when some score is too close to call."""
    from kernelmethods.base import KernelMatrix
    out = []
    for spec in bucket_specs(case):
        k = g.make_kernel(spec)
        K = svm.gram(k, X, X)
        if case['normalized']:
            d = K.diagonal()
            if (np.abs(d) < 1e-6).any():
                return None
            with np.errstate(all='ignore'):
                K = K / np.sqrt(d)[:, None] / np.sqrt(d)[None, :]
        if not np.isfinite(K).all():
            score = np.nan
        elif case['method'] == 'align/corr':
            score = svm.target_alignment(K, y)
            if score is None:
                return None
            score = 0.0 if score == 'zero' else score
        else:
            km = KernelMatrix(k, normalized=case['normalized'])
            km.attach_to(X)
            low, high = svm.cv_range(km.full, y, case['reg'], 3)
            out.append((spec, K, low, high))
            continue
        out.append((spec, K, score, score))
    return out


def run(case, ctx):
    from kernelmethods import algorithms as alg
    reg = case['reg']
    X, T, y, w = c18.setup(case, reg)
    if case['method'] == 'cv_risk' and not reg:
        y = c18.labels(case['y'], case['n'], case['s'], 0.0)
        flip = np.random.RandomState(case['s']).rand(case['n']) < case['noise'] * 0.4
        y2 = np.where(flip, np.roll(y, 1), y)
        y = y2 if min(np.unique(y2, return_counts=True)[1]) >= 3 and \
            len(np.unique(y2)) == len(np.unique(y)) else y
    if not reg and len(np.unique(y)) < 2:
        return
    specs = bucket_specs(case)
    if not case['normalized'] and not all(svm.calm(g.make_kernel(s), X, False) for s in specs):
        return
    cand = candidates(case, X, y)
    if cand is None or all(np.isnan(c[2]) for c in cand):
        return
    kw = dict(C=case['C'], shrinking=case['shrinking'], tol=case['tol'])
    if reg:
        kw['epsilon'] = case['eps']
    args = dict(kw, method=case['method'])
    kb = None
    if case['bucket'] == 'custom':
        kb = make_bucket(case)
        if case['before'] == 'attached':
            kb.attach_to(np.random.RandomState(3).rand(case['n'], case['d']) + 0.3)
            kb[0].full
        before = state(kb)
        held = np.array(kb[0].full) if case['before'] == 'attached' else None
        args['k_bucket'] = kb
    else:
        args['k_bucket'] = case['bucket']
    cls = alg.OptimalKernelSVR if reg else alg.OptimalKernelSVC
    est = cls(**args)
    Xin = X.tolist() if case['asl'] else X
    win = w.tolist() if w is not None and case['weights'] == 'list' else w
    if win is None:
        est.fit(Xin, y)
    else:
        est.fit(Xin, y, sample_weight=win)

    # 1. which kernel was selected
    opt = np.array(est.opt_kernel_.full)
    best = max(c[2] for c in cand if not np.isnan(c[2]))
    match = [c for c in cand if c[1].shape == opt.shape and
             np.allclose(opt, c[1], rtol=1e-7, atol=1e-9, equal_nan=True)]
    if not match:
        raise Violation('the matrix trained on is not that of any candidate kernel')
    if not any(c[3] >= best - 1e-7 for c in match):
        raise Violation('selected {} with score {}, but the scores are {}'.format(
            match[0][0], match[0][2], [c[2] for c in cand]))
    spec = next(c[0] for c in match if c[3] >= best - 1e-7)

    # 2. predictions
    got = est.predict(T)
    g.require(isinstance(got, np.ndarray) and got.shape == (len(T),), 'predictions {!r}', got)
    K, C = c18.train_matrices(spec, X, T, case['normalized'])
    usable = spec['k'] != 'sigmoid' and np.isfinite(C).all()
    if usable:
        if reg:
            ref, tol = c18.reg_values(K, y.astype('f8'), C, w,
                                      lambda: SVR(kernel='precomputed', **kw))
            tol = np.maximum(tol, 0.0)
            g.same('prediction', got, ref, tol)
            ctx.interesting((tol < 0.3 * (np.ptp(y.astype('f8')) + 1e-9)).any())
        else:
            ref, clear = c18.clear_labels(
                K, y, C, w, lambda: SVC(kernel='precomputed', decision_function_shape='ovo', **kw))
            bad = np.flatnonzero(clear & (got != ref))
            g.require(len(bad) == 0, 'row {}: predicted {!r} instead of {!r}', bad[:1], got[bad[:1]],
                      ref[bad[:1]])
            ctx.interesting(clear.any() and len(np.unique(ref)) > 1)
    if not reg:
        g.require(set(got.tolist()) <= set(np.unique(y).tolist()), 'predictions {!r} not among {!r}',
                  got, np.unique(y))
        g.require(np.array_equal(est.classes_, np.unique(y)), 'classes_ {!r}', est.classes_)
    if np.isfinite(C).all():
        for what, other in c18.batches(est, T, got, case['s']):
            ok = np.abs(np.asarray(other, dtype='f8') - got.astype('f8')) <= 1e-6 * (
                1 + np.abs(got.astype('f8')))
            if not reg and usable:
                ok |= ~clear
            elif not reg:
                ok |= True
            g.require(ok.all(), 'prediction of row {} is different {}', np.flatnonzero(~ok)[:1], what)

    # 3. the bucket of the user
    if kb is not None:
        g.require(state(kb) == before and est.k_bucket is kb, 'the bucket supplied was altered')
        if held is not None:
            g.require(np.array_equal(kb[0].full, held), 'matrices of the bucket supplied changed')
    ctx.label(case['bucket'], spec['k'], case['method'],
              'weights' if w is not None else 'no weights')
    if len(cand) > 1:
        ctx.label('several candidates')


BAD_BUCKETS = ('heavy', '', 'set', 'none', 'int', 'list', 'array', 'class', 'matrix', 'dict')


@st.composite
def invalid_cases(draw):
    return dict(reg=draw(st.booleans()), what=draw(st.sampled_from(BAD_BUCKETS)), s=draw(g.seeds),
                how=draw(st.sampled_from(('init', 'set'))), refit=draw(st.booleans()))


def run_invalid(case, ctx):
    from kernelmethods import algorithms as alg
    from kernelmethods.base import KernelMatrix, KernelSet
    from kernelmethods.numeric_kernels import LinearKernel
    from kernelmethods.sampling import KernelBucket, make_kernel_bucket
    bad = {'heavy': 'heavy', '': '', 'set': KernelSet([KernelMatrix(LinearKernel())]), 'none': None,
           'int': 3, 'list': list(make_kernel_bucket('linear_only')), 'array': np.eye(10),
           'class': KernelBucket, 'matrix': KernelMatrix(LinearKernel()), 'dict': {}}[case['what']]
    X = np.random.RandomState(case['s']).rand(10, 2) + 0.1
    y = np.arange(10) % 2
    cls = alg.OptimalKernelSVR if case['reg'] else alg.OptimalKernelSVC
    if case['how'] == 'init':
        est = cls(k_bucket=bad, method='align/corr')
    else:
        est = cls(k_bucket='linear_only', method='align/corr')
        if case['refit']:
            est.fit(X, y)
        est.set_params(k_bucket=bad)
    g.raises('bucket {}'.format(case['what']), ValueError, est.fit, X, y)
    ctx.label(case['what'])
    ctx.interesting()


SUBS = [
    Sub('classifier', lambda: cases(False), run, n=1000, rule='clear predictions of more than one '
        'class'),
    Sub('regressor', lambda: cases(True), run, n=900, rule='stable reference predictions'),
    Sub('classifier_cv', lambda: cases(False, True), run, n=60, shards=12,
        rule='clear predictions of more than one class'),
    Sub('regressor_cv', lambda: cases(True, True), run, n=60, shards=12,
        rule='stable reference predictions'),
    Sub('invalid', invalid_cases, run_invalid, n=120, rule='every case'),
]
