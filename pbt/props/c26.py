"""Oracle: a model of the last successful fit; the predictions of a fresh estimator fitted only on
that data. Faults: unusable training and test data of many kinds, and an injected failure of the
kernel function, at any point of a history."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, Violation
from pbt import gens as g
from pbt.props import c20

BAD_FIT = ('length', 'length2', 'nan', 'inf', 'nany', 'infy', '1d', '3d', 'empty', 'complex', 'text',
           'oneclass', 'weights', 'kernel', 'config', 'nocols', 'noy')
BAD_PREDICT = ('more', 'less', 'nan', 'inf', '-inf', '1d', '3d', 'empty', 'complex', 'text', 'kernel',
               'none')


class Faulty:
    """Kernel function that fails on demand (also in deep copies); undefined terms are skipped, so
    that nothing but the estimators refuses undefined data."""
    __name__ = 'faulty'
    left = None

    def __call__(self, x, y):
        if Faulty.left is not None:
            if Faulty.left == 0:
                raise ArithmeticError('injected')
            Faulty.left -= 1
        return float(np.exp(-0.3 * np.nansum((np.asarray(x) - np.asarray(y)) ** 2)))


@st.composite
def cases(draw):
    name = draw(st.sampled_from(c20.ESTS))
    n, d = draw(g.about(10, 14)), draw(st.integers(1, 3))
    data = []
    for _ in range(3):
        spec = draw(c20.datasets(n=n if draw(st.integers(0, 4)) else n + 3))
        if draw(st.integers(0, 4)):
            spec['d'] = d
        data.append(spec)
    ops = []
    for _ in range(draw(st.integers(3, 9))):
        kind = draw(st.sampled_from(('fit', 'badfit', 'badfit', 'predict', 'predict', 'badpredict',
                                     'badpredict')))
        ops.append({'fit': lambda: ['fit', draw(st.integers(0, 2))],
                    'badfit': lambda: ['badfit', draw(st.integers(0, 2)),
                                       draw(st.sampled_from(BAD_FIT)), draw(st.integers(0, 60))],
                    'predict': lambda: ['predict', draw(st.integers(0, 2))],
                    'badpredict': lambda: ['badpredict', draw(st.integers(0, 2)),
                                           draw(st.sampled_from(BAD_PREDICT)),
                                           draw(st.integers(0, 60))]}[kind]())
    return dict(est=name, data=data, ops=ops, normalized=draw(st.booleans()),
                first=draw(st.integers(0, 3)) > 0, kernel=draw(st.integers(0, 2)))


def make(case):
    from kernelmethods import algorithms as alg
    from kernelmethods.base import KernelFromCallable, KernelMatrix
    from kernelmethods.sampling import KernelBucket
    cls = getattr(alg, case['est'])
    if case['est'].startswith('Kernel'):
        return lambda: cls(KernelFromCallable(Faulty()), normalized=case['normalized'])

    def build():
        kb = KernelBucket(poly_degree_values=None, laplace_gamma_values=None,
                          rbf_sigma_values=[0.5, 3.0][:case['kernel']] or None,
                          sigmoid_gamma_values=None, sigmoid_offset_values=None,
                          normalize_kernels=case['normalized'])
        kb.append(KernelMatrix(KernelFromCallable(Faulty()), normalized=False))
        return cls(k_bucket=kb, method='align/corr')
    return build


def spoil_fit(kind, at, X, y, w, reg):
    """(X, y, sample weights) which can not be used, or None where the kind does not apply."""
    n = len(y)
    i, j = at % n, at % X.shape[1]
    Z = X.astype('f8')
    if kind == 'length':
        return X, y[:-1], None
    if kind == 'length2':
        return X[:-1], y, None
    if kind in ('nan', 'inf'):
        Z[i, j] = np.nan if kind == 'nan' else (np.inf if at % 2 else -np.inf)
        return Z, y, w
    if kind in ('nany', 'infy'):
        if y.dtype.kind in 'US':
            return None
        v = y.astype('f8')
        v[i] = np.nan if kind == 'nany' else np.inf
        return X, v, w
    if kind == '1d':
        return X[:, 0], y, w
    if kind == '3d':
        return X[:, :, None], y, w
    if kind == 'empty':
        return X[:0], y[:0], None
    if kind == 'nocols':
        return X[:, :0], y, w
    if kind == 'complex':
        return Z * 1j, y, w
    if kind == 'text':
        t = Z.astype(str).astype(object)
        t[i, j] = 'abc'
        return t, y, w
    if kind == 'oneclass':
        return None if reg else (X, np.repeat(y[:1], n), w)
    if kind == 'weights':
        return X, y, np.ones(n - 1 if at % 2 else n + 1)
    if kind == 'noy':
        return X, None, w
    return X, y, w


def spoil_test(kind, at, T):
    i, j = at % len(T), at % T.shape[1]
    Z = T.astype('f8')
    if kind == 'more':
        return np.hstack([Z, Z[:, :1]])
    if kind == 'less':
        return Z[:, 1:]
    if kind in ('nan', 'inf', '-inf'):
        Z[i, j] = float(kind)
        return Z
    if kind == '1d':
        return Z[i]
    if kind == '3d':
        return Z[:, :, None]
    if kind == 'empty':
        return Z[:0]
    if kind == 'complex':
        return Z * 1j
    if kind == 'text':
        t = Z.astype(str).astype(object)
        t[i, j] = 'abc'
        return t
    return None


def run(case, ctx):
    try:
        run_history(case, ctx)
    finally:
        Faulty.left = None


def run_history(case, ctx):
    from sklearn.exceptions import NotFittedError
    build = make(case)
    reg = case['est'] in ('KernelMachineRegressor', 'OptimalKernelSVR')
    optimal = case['est'].startswith('Optimal')
    data = [c20.dataset(d, reg, not optimal) for d in case['data']]
    Faulty.left = None
    est = build()
    fresh = {}

    def reference(i):
        if i not in fresh:
            X, y, w, T = data[i]
            fresh[i] = build().fit(X, y, sample_weight=w)
        return fresh[i]

    good = None      # data of the last successful fit
    failed = False   # whether a fit has failed since
    after_failure = after_bad_predict = False
    bad_predicts = 0
    ops = [['fit', 0]] + case['ops'] if case['first'] else case['ops']
    for op in ops + [['predict', 0]]:
        if op[0] == 'fit':
            X, y, w, T = data[op[1]]
            est.fit(X, y, sample_weight=w)
            good, failed = op[1], False
        elif op[0] == 'badfit':
            X, y, w, T = data[op[1]]
            kind = op[2]
            args = spoil_fit(kind, op[3], X, y, w, reg)
            if args is None:
                continue
            keep = est.get_params()
            if kind == 'kernel':
                Faulty.left = op[3] % (len(y) * (len(y) + 1) // 2)
            elif kind == 'config':
                est.set_params(**({'k_bucket': ('nonsense', None, 5)[op[3] % 3]}
                                  if optimal and op[3] % 2 else {'method': 'nonsense'} if optimal
                                  else {'learner_id': 'nonsense'}))
            try:
                est.fit(args[0], args[1], sample_weight=args[2])
            except Exception:
                pass
            else:
                raise Violation('{}: fit on unusable input ({}) did not fail'.format(
                    case['est'], kind))
            finally:
                Faulty.left = None
                est.set_params(**keep)
            failed = True
            ctx.label('fit ' + kind)
        elif op[0] == 'predict':
            if good is None:
                T = data[op[1]][3]
                if failed:
                    g.raises('predict after a failed first fit', NotFittedError, est.predict, T)
                    after_failure = True
                else:
                    g.raises('predict before fit', NotFittedError, est.predict, T)
                continue
            ref = reference(good)
            T = data[op[1]][3]
            if T.shape[1] != data[good][0].shape[1]:
                T = data[good][3]
            try:
                got = est.predict(T)
            except Exception as e:
                if not failed:
                    raise Violation('predict raises {!r}'.format(e))
                after_failure = True
                continue
            c20.closes('prediction after a failed fit' if failed else 'prediction', got,
                       ref.predict(T), reg)
            after_failure = after_failure or failed
            after_bad_predict = after_bad_predict or bad_predicts > 0
        else:
            if good is None or failed:
                continue
            kind = op[2]
            T = data[good][3]
            if kind == 'kernel':
                chosen = getattr(est, 'opt_kernel_', None)
                if chosen is not None and 'aulty' not in str(chosen.kernel):
                    continue
                Faulty.left = op[3] % (len(T) * len(data[good][0]))
                bad = T
            else:
                bad = spoil_test(kind, op[3], T)
            try:
                est.predict(bad)
            except Exception:
                pass
            else:
                raise Violation('{}: predict on unusable input ({}) did not fail'.format(
                    case['est'], kind))
            finally:
                Faulty.left = None
            bad_predicts += 1
            ctx.label('predict ' + kind)
    ctx.label(case['est'])
    ctx.interesting(after_failure or after_bad_predict)


SUBS = [Sub('histories', cases, run, n=3000,
            rule='a prediction was compared or refused after a failed fit or failed prediction')]
