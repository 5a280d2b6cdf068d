"""Metamorphic: a call with some optional arguments omitted, some given by position, some by keyword
and names in any letter case, against the same call with everything given explicitly by keyword (the
documented default for what was omitted); compared by what the resulting objects do."""
import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, Violation
from pbt import gens as g

DEGREES, SIGMAS = (2, 3, 4), tuple(2.0 ** e for e in range(-5, 6, 2))
GAMMAS, OFFSETS = SIGMAS, (-2.0, 1.0, 2.0)
LIGHT = dict(poly_degree_values=[2], rbf_sigma_values=[1.0], laplace_gamma_values=None,
             sigmoid_gamma_values=None, sigmoid_offset_values=None)


class World:
    """Fixed inputs of one case."""

    def __init__(self, s, n):
        r = np.random.RandomState(s)
        self.s, self.n = s, n
        self.X = r.rand(n, 2) * 2 + 0.25
        self.Y = r.rand(n + 1, 2) * 2 + 0.25
        self.T = r.rand(4, 2) * 2 + 0.25
        self.y = np.arange(n) % 2
        self.t = self.X.sum(1) + 0.1 * r.randn(n)
        self.x, self.z = r.rand(3) * 2 + 0.1, r.rand(3) * 2 + 0.1
        A, B = r.randn(n, n), r.randn(n, n)
        self.A, self.B = A @ A.T + np.eye(n), B @ B.T + np.eye(n)
        self.low = [-5e-7, -2e-6, -3e-7, -5e-5, 0.1][s % 5]

    def matrices(self):
        from kernelmethods.base import KernelSet
        return KernelSet([self.A, self.B])

    def bucket(self, attach=True):
        from kernelmethods.sampling import KernelBucket
        kb = KernelBucket(**LIGHT)
        if attach:
            kb.attach_to(self.X)
        return kb


def outcome(func):
    """Value, or that it raised."""
    try:
        return func()
    except Exception:
        return 'raised'


def checks_inputs(k):
    """Whether matrices instead of vectors are refused: shows the flag for input checks. (Nothing
    is promised about such input when checks are skipped, nor about lists.)"""
    try:
        k(np.ones((2, 2)), np.ones((2, 2)))
    except ValueError:
        return True
    except Exception:
        return 'raised'
    return False


# what an object does ------------------------------------------------------------------------

def see_kernel(k, w):
    return [str(k), k(w.x, w.z), k(w.x, w.x), checks_inputs(k)]


def see_match(k, w):
    return [str(k), k(np.array(['a', 'b', 'c']), np.array(['a', 'b', 'd']))]


def see_matrix(km, w):
    km.attach_to(w.X)
    return [str(km), km.full]


def see_bucket(kb, w):
    kb.attach_to(w.X)
    return [kb.name, len(kb)] + [[type(m.kernel).__name__, outcome(lambda: m.full),
                                  checks_inputs(m.kernel)]
                                 for m in kb]


def see_set(ks, w):
    return [str(ks), len(ks), ks.num_samples]


def see_composite(c, w):
    c.fit()
    return [str(c), c.full]


def see_machine(est, w):
    out = [sorted((k, str(v)) for k, v in est.get_params().items())]
    y = w.t if type(est).__name__.endswith('Regressor') or est.learner_id.lower() == 'svr' else w.y
    est.fit(w.X, y)
    return out + [est.predict(w.T), est.predict(w.X)]


def see_optimal(est, w):
    out = [sorted((k, str(v)) for k, v in est.get_params().items())]
    if est.method.lower() == 'cv_risk' and est.k_bucket.lower() != 'linear_only':
        return out  # takes too long
    est.fit(w.X, w.t if 'epsilon' in est.get_params() else w.y)
    return out + [est.predict(w.T), est.predict(w.X)]


def see_value(v, w):
    return [v]


def see_estimator(pair, w):
    est, grid = pair
    return [type(est).__name__, sorted((k, str(v)) for k, v in est.get_params().items()),
            sorted(grid), [np.asarray(grid[k]) for k in sorted(grid)]]


def attach(w, **kw):
    return lambda *a, **k: _attached(w, a, k)


def _attached(w, a, k):
    from kernelmethods.base import KernelMatrix
    km = KernelMatrix(g.make_kernel({'k': 'gaussian'}))
    km.attach_to(w.X, *a, **k)
    return [str(km), km.full, km.num_samples]


def _set_attached(w, a, k):
    ks = w.bucket(False)
    ks.attach_to(w.X, *a, **k)
    return [str(ks), ks.get_attr('tag'), ks.num_samples]


def _attr(w, a, k):
    kb = w.bucket()
    return [kb[0].get_attr('unset', *a, **k)]


def _set_attr(w, a, k):
    return w.bucket().get_attr('unset', *a, **k)


def low_matrix(w):
    q, _ = np.linalg.qr(np.random.RandomState(w.s).randn(w.n, w.n))
    v = np.linspace(0.5, 2, w.n)
    v[0] = w.low
    M = (q * v) @ q.T
    return (M + M.T) / 2


SKIP = ('skip_input_checks', False, [True])
BUCKET = [('poly_degree_values', DEGREES, [(2,), None]),
          ('rbf_sigma_values', SIGMAS, [(0.5, 1.5), None]),
          ('laplace_gamma_values', GAMMAS, [(0.7,), None]),
          ('sigmoid_gamma_values', GAMMAS, [(0.1,), None]),
          ('sigmoid_offset_values', OFFSETS, [(0.5,), None]),
          ('name', 'KernelBucket', ['mine']), ('normalize_kernels', True, [False]), SKIP]
C_, SHR, TOL = ('C', 1.0, [0.05, 7.0]), ('shrinking', True, [False]), ('tol', 1e-3, [0.1])
KB = ('k_bucket', 'exhaustive', ['linear_only', 'light', 'Linear_Only', 'LIGHT'])
METHOD = ('method', 'cv_risk', ['align/corr', 'Align/Corr', 'CV_Risk'])
MACHINE = [('k_func', None, [{'k': 'linear'}, {'k': 'laplacian'}])]


def lazy():
    """name -> (function of the world returning the callable, parameters, observer)"""
    from kernelmethods import algorithms as alg, base as b, categorical as c
    from kernelmethods import numeric_kernels as n, operations as o, ranking as r, sampling as s
    from kernelmethods import utils as u

    def bind(f, *lead):
        return lambda w: (lambda *a, **k: f(*[x(w) for x in lead], *a, **k))

    X, A, B = (lambda w: w.X), (lambda w: w.A), (lambda w: w.B)
    ones = (lambda w: np.ones((w.n, w.n)))
    return {
        'HadamardKernel': (bind(n.HadamardKernel), [('alpha', 3, [1, 2, 0.5]), SKIP], see_kernel),
        'PolyKernel': (bind(n.PolyKernel), [('degree', 3, [2, 5]), ('gamma', 1.0, [0.5, 2.0]),
                                            ('b', 1.0, [0.0, 3.0]), SKIP], see_kernel),
        'GaussianKernel': (bind(n.GaussianKernel), [('sigma', 2.0, [0.5, 1.0]), SKIP], see_kernel),
        'LaplacianKernel': (bind(n.LaplacianKernel), [('gamma', 1.0, [0.5, 2.0]), SKIP], see_kernel),
        'Chi2Kernel': (bind(n.Chi2Kernel), [('gamma', 1.0, [0.5, 2.0]), SKIP], see_kernel),
        'SigmoidKernel': (bind(n.SigmoidKernel), [('gamma', 1.0, [0.5, 0.1]),
                                                  ('offset', 1.0, [0.0, -2.0]), SKIP], see_kernel),
        'LinearKernel': (bind(n.LinearKernel), [SKIP], see_kernel),
        'MatchCountKernel': (bind(c.MatchCountKernel), [('return_perc', True, [False]), SKIP],
                             see_match),
        'KernelMatrix': (bind(b.KernelMatrix, lambda w: g.make_kernel({'k': 'linear'})),
                         [('normalized', True, [False]), ('name', 'KernelMatrix', ['other'])],
                         see_matrix),
        'KernelMatrixPrecomputed': (bind(b.KernelMatrixPrecomputed, A),
                                    [('name', None, ['given'])],
                                    lambda m, w: [str(m), m.full, m.size]),
        'ConstantKernelMatrix': (bind(b.ConstantKernelMatrix, lambda w: w.n),
                                 [('value', 0.0, [2.5, 7]), ('name', 'Constant', ['given']),
                                  ('dtype', 'float', ['int', 'float32'])],
                                 lambda m, w: [str(m), m.full, m.full.dtype.str, m.diag, m[0, 0]]),
        'KernelSet': (bind(b.KernelSet), [('km_list', None, ['matrices']),
                                          ('name', 'KernelSet', ['given']),
                                          ('num_samples', None, ['n'])], see_set),
        'KernelSet.take': (lambda w: (lambda *a, **k: w.matrices().take([1, 0, 1], *a, **k)),
                           [('name', 'SelectedKMs', ['given'])], see_set),
        'SumKernel': (bind(b.SumKernel, World.matrices), [('name', 'SumKernel', ['given'])],
                      see_composite),
        'ProductKernel': (bind(b.ProductKernel, World.matrices),
                          [('name', 'ProductKernel', ['given'])], see_composite),
        'AverageKernel': (bind(b.AverageKernel, World.matrices),
                          [('name', 'AverageKernel', ['given'])], see_composite),
        'WeightedAverageKernel': (bind(b.WeightedAverageKernel, World.matrices,
                                       lambda w: [0.25, 2.0]),
                                  [('name', 'WeightedAverageKernel', ['given'])], see_composite),
        'SumKernel.fit': (lambda w: (lambda *a, **k: (lambda ker: [ker.fit(*a, **k), ker.full][1])(
            b.SumKernel(w.matrices()))), [('kernel_weights', None, [[0.5, 3.0]])], see_value),
        'attach_to': (lambda w: (lambda *a, **k: _attached(w, a, k)),
                      [('name_one', 'sample', ['train']), ('sample_two', None, ['Y']),
                       ('name_two', None, ['test'])], see_value),
        'KernelSet.attach_to': (lambda w: (lambda *a, **k: _set_attached(w, a, k)),
                                [('name', 'sample', ['train']), ('attr_name', None, ['tag']),
                                 ('attr_value', None, [5])], see_value),
        'get_attr': (lambda w: (lambda *a, **k: _attr(w, a, k)),
                     [('value_if_not_found', None, [0, 'x'])], see_value),
        'KernelSet.get_attr': (lambda w: (lambda *a, **k: _set_attr(w, a, k)),
                               [('value_if_not_found', None, [0, 'x'])], see_value),
        'KernelBucket': (bind(s.KernelBucket), BUCKET, see_bucket),
        'make_kernel_bucket': (bind(s.make_kernel_bucket), [
            ('strategy', 'exhaustive', ['light', 'linear_only', 'Light', 'LINEAR_ONLY',
                                        'Exhaustive']),
            ('normalize_kernels', True, [False]), SKIP], see_bucket),
        'pairwise_similarity': (bind(s.pairwise_similarity, World.matrices),
                                [('metric', 'corr', ['align'])], see_value),
        'is_PSD': (bind(o.is_PSD, low_matrix), [('tolerance', 1e-6, [1e-4, 1e-7]),
                                                ('verbose', False, [True])], see_value),
        'is_positive_semidefinite': (bind(o.is_positive_semidefinite, low_matrix),
                                     [('tolerance', 1e-6, [1e-4, 1e-7]),
                                      ('verbose', False, [True])], see_value),
        'normalize_km': (bind(o.normalize_km, A), [('method', 'cosine', ['Cosine', 'COSINE'])],
                         see_value),
        'normalize_km_2sample': (bind(o.normalize_km_2sample, A, lambda w: w.A.diagonal() + 1,
                                      lambda w: w.B.diagonal()),
                                 [('method', 'cosine', ['Cosine', 'COSINE'])], see_value),
        'alignment_centered': (bind(o.alignment_centered, A, B), [
            ('value_if_zero_division', 'raise', [0.0, 0.5]), ('centered_already', False, [True])],
            see_value),
        'alignment_centered of a constant': (bind(o.alignment_centered, A, ones), [
            ('value_if_zero_division', 'raise', [0.0, 0.5]), ('centered_already', False, [True])],
            see_value),
        'linear_combination': (bind(o.linear_combination, World.matrices, lambda w: [0.5, 3.0]),
                               [('norm_weights', False, [True])], see_value),
        'rank_kernels': (bind(r.rank_kernels, World.bucket, lambda w: w.y),
                         [('method', 'align/corr', ['cv_risk', 'Align/Corr', 'CV_RISK'])],
                         see_value),
        'find_optimal_kernel': (bind(r.find_optimal_kernel, lambda w: w.bucket(False), X,
                                     lambda w: w.y),
                                [('method', 'cv_risk', ['align/corr', 'Align/Corr', 'CV_RISK'])],
                                lambda m, w: [str(m), m.full]),
        'CV_ranking': (bind(r.CV_ranking, World.bucket, lambda w: w.t * 1.0 if w.s % 2 else w.y),
                       [('num_folds', 3, [2, 4]), ('estimator_name', 'SVM', ['SVR', 'svr', 'Svc'])],
                       see_value),
        'get_estimator': (bind(r.get_estimator), [('learner_id', 'svm', ['SVM', 'svc', 'SVR', 'svr',
                                                                        'Svr'])], see_estimator),
        'KernelMachine': (bind(alg.KernelMachine), MACHINE + [
            ('learner_id', 'SVC', ['svm', 'SVM', 'svr', 'SVR']), ('normalized', False, [True])],
            see_machine),
        'KernelMachineRegressor': (bind(alg.KernelMachineRegressor), MACHINE + [
            ('learner_id', 'SVR', ['svr']), ('normalized', False, [True])], see_machine),
        'OptimalKernelSVR': (bind(alg.OptimalKernelSVR), [
            KB, METHOD, C_, ('epsilon', 0.1, [0.01, 0.5]), SHR, TOL], see_optimal),
        'OptimalKernelSVC': (bind(alg.OptimalKernelSVC), [KB, METHOD, C_, SHR, TOL], see_optimal),
        'is_iterable_but_not_str': (bind(u.is_iterable_but_not_str, lambda w: [0] * (w.s % 3)),
                                    [('min_length', 1, [0, 2])], see_value),
    }


# names of the arguments above, to be drawn before the code under test is imported
NARGS = {'HadamardKernel': 2, 'PolyKernel': 4, 'GaussianKernel': 2, 'LaplacianKernel': 2,
         'Chi2Kernel': 2, 'SigmoidKernel': 3, 'LinearKernel': 1, 'MatchCountKernel': 2,
         'KernelMatrix': 2, 'KernelMatrixPrecomputed': 1, 'ConstantKernelMatrix': 3, 'KernelSet': 3,
         'KernelSet.take': 1, 'SumKernel': 1, 'ProductKernel': 1, 'AverageKernel': 1,
         'WeightedAverageKernel': 1, 'SumKernel.fit': 1, 'attach_to': 3, 'KernelSet.attach_to': 3,
         'get_attr': 1, 'KernelSet.get_attr': 1, 'KernelBucket': 8, 'make_kernel_bucket': 3,
         'pairwise_similarity': 1, 'is_PSD': 2, 'is_positive_semidefinite': 2, 'normalize_km': 1,
         'normalize_km_2sample': 1, 'alignment_centered': 2,
         'alignment_centered of a constant': 2, 'linear_combination': 1, 'rank_kernels': 1,
         'find_optimal_kernel': 1, 'CV_ranking': 2, 'get_estimator': 1, 'KernelMachine': 3,
         'KernelMachineRegressor': 3, 'OptimalKernelSVR': 6, 'OptimalKernelSVC': 5,
         'is_iterable_but_not_str': 1}


@st.composite
def cases(draw):
    what = draw(st.sampled_from(sorted(NARGS)))
    k = NARGS[what]
    # per argument: omitted, the default, or one of the alternatives
    return dict(what=what, states=[draw(st.sampled_from(('omit', 'omit', 'default', 0, 1, 2, 3)))
                                   for _ in range(k)],
                pos=draw(st.integers(0, k)), s=draw(g.seeds), n=draw(st.integers(9, 12)))


def materialize(v, w):
    if isinstance(v, dict):
        return g.make_kernel(v)
    if isinstance(v, str) and v in ('matrices', 'n', 'Y'):
        return {'matrices': lambda: [w.A, w.B], 'n': lambda: w.n, 'Y': lambda: w.Y}[v]()
    return v


def observe(func, see, w, args, kw):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        try:
            made = func(*args, **kw)
        except Exception:
            return 'raised'
        return see(made, w)


def differ(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) != len(b) or any(differ(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) or isinstance(a, float):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return True
        if a.dtype.kind in 'fiub' and b.dtype.kind in 'fiub':
            return not np.allclose(a.astype('f8'), b.astype('f8'), rtol=1e-7, atol=1e-9,
                                   equal_nan=True)
        return not np.array_equal(a, b)
    return a != b


def run(case, ctx):
    what = case['what']
    make, params, see = lazy()[what]
    args, kw, ref = [], {}, {}
    w = World(case['s'], case['n'])
    w2 = World(case['s'], case['n'])
    omitted = changed = 0
    by_pos = case['pos']
    for i, ((name, default, alts), state) in enumerate(zip(params, case['states'])):
        if state == 'omit':
            by_pos = min(by_pos, i)
            omitted += 1
            value = default
        else:
            value = default if state == 'default' else alts[state % len(alts)]
            changed += state != 'default'
            if i < by_pos:
                args.append(materialize(value, w))
            else:
                kw[name] = materialize(value, w)
        ref[name] = materialize(value, w2)
    got = observe(make(w), see, w, args, kw)
    want = observe(make(w2), see, w2, [], ref)
    if differ(got, want):
        raise Violation('{}(*{!r}, **{!r}) is not the same as with {!r}: {!r} instead of {!r}'.format(
            what, args, kw, ref, got, want)[:3000])
    # names in another letter case mean the same
    lowered = {k: v.lower() if isinstance(v, str) and k in ('method', 'strategy', 'learner_id',
                                                            'estimator_name', 'k_bucket')
               else v for k, v in ref.items()}
    if any(lowered[k] is not ref[k] and lowered[k] != ref[k] for k in ref):
        w3 = World(case['s'], case['n'])
        low = observe(make(w3), see, w3, [], lowered)
        skip = 1 if see in (see_machine, see_optimal) else 0  # parameters are kept as given
        if differ(got[skip:], low[skip:]):
            raise Violation('{}: {!r} gives {!r}, {!r} gives {!r}'.format(what, ref, want, lowered,
                                                                        low))
    ctx.label(what, 'omitted' if omitted else 'all given', 'positional' if args else 'keywords')
    ctx.interesting(omitted > 0 or bool(args))


SUBS = [Sub('signatures', cases, run, n=2600,
            rule='some argument omitted or given by position')]
