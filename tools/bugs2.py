"""Definitions of planted changes (see plant.py)."""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks,
                     demo='import numpy as np\nimport warnings\nwarnings.simplefilter("ignore")\n'
                          + demo))


B, O, N, U, S, R, A, C = ('base.py', 'operations.py', 'numeric_kernels.py', 'utils.py',
                          'sampling.py', 'ranking.py', 'algorithms.py', 'categorical.py')

bug('take-unique', 'C12',
    [(B, "        indices = self._check_indices(indices)\n\n        new_set = KernelSet(name=name)\n        for idx in indices:",
      "        indices = np.unique(self._check_indices(indices))\n\n        new_set = KernelSet(name=name)\n        for idx in indices:")],
    'take() with unordered or repeated indices',
    'selected kernel matrices come sorted and without repetition', '''
from kernelmethods.base import KernelSet
ks = KernelSet([np.eye(3) * k for k in (1., 2., 3.)])
t = ks.take([2, 0])
assert t[0] is ks[2] and t[1] is ks[0] and t.size == 2
''')
bug('set-attach-first-only-new', 'C12',
    [(B, "            self._km_set[index].attach_to(sample, name_one=name)\n",
      "            if getattr(self._km_set[index], '_sample', None) is not sample:\n"
      "                self._km_set[index].attach_to(sample, name_one=name)\n")],
    'a member that was attached to the same array before, whose contents then changed',
    'attaching a set skips members already attached to that array, keeping stale values', '''
from kernelmethods.base import KernelSet, KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
X = np.random.RandomState(0).rand(4, 2)
ks = KernelSet([KernelMatrix(LinearKernel(), normalized=False)])
ks.attach_to(X)
ks[0].full
X *= 2
ks.attach_to(X)
assert np.allclose(ks[0].full, X.dot(X.T))
''')
bug('falsy-attribute', 'C13',
    [(B, "        return self._attr.get(attr_name, value_if_not_found)\n",
      "        return self._attr.get(attr_name) or value_if_not_found\n")],
    'an attribute with a falsy value (0, empty string, False) and a default',
    'attributes with falsy values are reported as not set', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
km = KernelMatrix(LinearKernel())
km.attach_to(np.eye(3))
km.set_attr('fold', 0)
assert km.get_attr('fold', -1) == 0
''')
bug('attributes-kept', 'C13',
    [(B, "        self._attr.clear()\n",
      "        if not getattr(self, '_num_ker_eval', 0) == 0:\n            self._attr.clear()\n")],
    'attaching again without any kernel evaluation in between',
    'attributes survive re-attachment when nothing was computed on the previous sample', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
km = KernelMatrix(LinearKernel())
km.attach_to(np.eye(3))
km.set_attr('a', 1)
km.attach_to(np.ones((3, 3)))
assert km.get_attr('a') is None and len(km.attributes()) == 0
''')
bug('attach-attr-value-elementwise', 'C13',
    [(B, "                self._km_set[index].set_attr(attr_name, attr_value)\n",
      "                self._km_set[index].set_attr(\n"
      "                    attr_name, attr_value[index]\n"
      "                    if isinstance(attr_value, (list, tuple)) else attr_value)\n")],
    'attaching a set with a list as the value of an attribute',
    'attribute given to attach_to is split over the members instead of set on each', '''
from kernelmethods.base import KernelSet, KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel, PolyKernel
ks = KernelSet([KernelMatrix(LinearKernel()), KernelMatrix(PolyKernel())])
ks.attach_to(np.eye(3), attr_name='fold', attr_value=[1, 2])
assert ks.get_attr('fold') == [[1, 2], [1, 2]], ks.get_attr('fold')
''')
bug('product-in-place', 'C14',
    [(B, "        self.KM = np.ones((self.num_samples, self.num_samples))\n        for km in self.km_set:\n"
         "            self.KM = self.KM * km.full  # * is element-wise multiplication here\n",
      "        self.KM = self.km_set[0].full\n        for km in list(self.km_set)[1:]:\n"
      "            self.KM *= km.full  # * is element-wise multiplication here\n")],
    'looking at the first member after fitting, or fitting twice',
    'product kernel is accumulated into the matrix of the first member', '''
from kernelmethods.base import KernelSet, ProductKernel
a, b = np.eye(3) + 1.0, np.eye(3) * 2 + 0.5
ks = KernelSet([a.copy(), b.copy()])
p = ProductKernel(ks)
p.fit()
assert np.allclose(p.full, a * b)
assert np.allclose(ks[0].full, a)
''')
bug('average-size-at-init', 'C14',
    [(B, "        self._is_fitted = False\n        self.name = name\n",
      "        self._num_kernels = km_set.size\n        self._is_fitted = False\n        self.name = name\n"),
     (B, "        self.KM = self.KM / self.km_set.size\n", "        self.KM = self.KM / self._num_kernels\n")],
    'adding matrices to the set between construction and fitting',
    'average divides by the number of kernels at construction', '''
from kernelmethods.base import KernelSet, AverageKernel
ks = KernelSet([np.eye(3), np.eye(3) * 3])
a = AverageKernel(ks)
ks.append(np.eye(3) * 8)
a.fit()
assert np.allclose(a.full, np.eye(3) * 4)
''')
bug('weights-abs-norm', 'C14',
    [(O, "        denom = weights.sum()\n", "        denom = np.abs(weights).sum()\n")],
    'normalization of weights some of which are negative',
    'weights are normalized by the sum of their magnitudes', '''
from kernelmethods.base import KernelSet
from kernelmethods.operations import linear_combination
ks = KernelSet([np.eye(3), np.ones((3, 3))])
assert np.allclose(linear_combination(ks, [3.0, -1.0], norm_weights=True),
                   1.5 * np.eye(3) - 0.5)
''')
bug('sum-skips-zero-and-negative', 'C14',
    [(B, "            self.KM = self.KM + weight * km.full\n\n        self._is_fitted = True\n\n\nclass ProductKernel",
      "            if weight > 0:\n                self.KM = self.KM + weight * km.full\n\n"
      "        self._is_fitted = True\n\n\nclass ProductKernel")],
    'negative weights of a sum kernel',
    'members with negative weights are left out of a weighted sum', '''
from kernelmethods.base import KernelSet, SumKernel
s = SumKernel(KernelSet([np.eye(3), np.ones((3, 3))]))
s.fit([1.0, -2.0])
assert np.allclose(s.full, np.eye(3) - 2)
''')
bug('bucket-stops-at-bad-value', 'C15',
    [(S, "        for val in values:\n            try:\n",
      "        failed = False\n        for val in values:\n            if failed:\n                break\n            try:\n"),
     (S, "            except:\n                warn('Unable to add {} to the bucket for {}={}. Skipping it.'",
      "            except:\n                failed = True\n                warn('Unable to add {} to the bucket for {}={}. Skipping it.'")],
    'an unusable parameter value followed by usable ones',
    'values after an unusable one are not added', '''
from kernelmethods.sampling import make_kernel_bucket
from kernelmethods.numeric_kernels import HadamardKernel
kb = make_kernel_bucket('linear_only')
kb.add_parametrized_kernels(HadamardKernel, 'alpha', [0, 2, 3])
assert len(kb) == 3
''')
bug('bucket-sorted-values', 'C15',
    [(S, "        for val in values:\n            try:\n", "        for val in sorted(values):\n            try:\n")],
    'parameter values given in non-ascending order',
    'kernels are added in ascending order of their parameter', '''
from kernelmethods.sampling import KernelBucket
kb = KernelBucket(poly_degree_values=[4, 2], rbf_sigma_values=None, laplace_gamma_values=None,
                  sigmoid_gamma_values=None, sigmoid_offset_values=None)
assert [km.kernel.degree for km in list(kb)[1:]] == [4, 2]
''')
bug('bucket-linear-normed', 'C15',
    [(S, "init_kset = [KernelMatrix(LinearKernel(), normalized=self._norm_kernels), ]",
      "init_kset = [KernelMatrix(LinearKernel()), ]")],
    'a bucket with normalization turned off',
    'the linear kernel of a bucket is always normalized', '''
from kernelmethods.sampling import make_kernel_bucket
kb = make_kernel_bucket('linear_only', normalize_kernels=False)
X = np.random.RandomState(0).rand(4, 3)
kb.attach_to(X)
assert np.allclose(kb[0].full, X.dot(X.T))
''')
bug('ideal-by-class', 'C16',
    [(R, "    target_kernel = np.outer(targets, targets)\n",
      "    target_kernel = np.equal.outer(targets, targets).astype(cfg.km_dtype)\n")],
    'targets with more than two distinct values',
    'ranking by alignment uses class membership instead of the product of targets', '''
from kernelmethods.sampling import make_kernel_bucket
from kernelmethods.ranking import rank_kernels
from kernelmethods.operations import alignment_centered
X = np.random.RandomState(0).rand(9, 3)
y = np.array([0, 1, 2] * 3)
kb = make_kernel_bucket('light')
kb.attach_to(X)
got = rank_kernels(kb, y, method='align/corr')
ref = [alignment_centered(km.full, np.outer(y, y).astype(float), value_if_zero_division=0.0) for km in kb]
assert np.allclose(got, ref, equal_nan=True)
''')
bug('cv-folds-ignored', 'C16',
    [(R, "                          cv=num_folds)\n", "                          cv=max(3, min(num_folds, 3)))\n")],
    'cross-validation ranking with a number of folds other than three',
    'requested number of folds is ignored', '''
from kernelmethods.sampling import KernelBucket
from kernelmethods.ranking import rank_kernels
from sklearn.model_selection import GridSearchCV
from sklearn.svm import SVR
r = np.random.RandomState(3)
X = r.rand(20, 3)
y = X[:, 0] + r.randn(20) * 0.2
kb = KernelBucket(poly_degree_values=[2], rbf_sigma_values=[0.5, 3.0], laplace_gamma_values=None,
                  sigmoid_gamma_values=None, sigmoid_offset_values=None)
kb.attach_to(X)
got = rank_kernels(kb, y, method='cv_risk', num_folds=5, estimator_name='SVR')
ref = np.array([GridSearchCV(SVR(kernel='precomputed'), dict(C=10.0 ** np.arange(-6, 6)), cv=5)
                .fit(km.full, y).best_score_ for km in kb])
ref = 100 * (ref - ref.min()) / (ref.max() - ref.min())
assert np.allclose(got, ref, atol=1e-3), (got, ref)
''')
bug('svr-grid-short', 'C16',
    [(R, "        range_C = np.power(10.0, range(-6, 6))\n        param_grid = dict(C=range_C)\n        base_learner = SVR(",
      "        range_C = np.power(10.0, range(-6, 1))\n        param_grid = dict(C=range_C)\n        base_learner = SVR(")],
    'regression targets for which a large penalty is best',
    'cross-validation ranking for regression covers only a part of the penalty grid', '''
from kernelmethods.sampling import KernelBucket
from kernelmethods.ranking import rank_kernels
from sklearn.model_selection import GridSearchCV
from sklearn.svm import SVR
r = np.random.RandomState(3)
X = r.rand(20, 3)
y = 5 * X[:, 0] - 3 * X[:, 1] + r.randn(20) * 0.01
kb = KernelBucket(poly_degree_values=[2], rbf_sigma_values=[0.5, 3.0], laplace_gamma_values=None,
                  sigmoid_gamma_values=None, sigmoid_offset_values=None)
kb.attach_to(X)
got = rank_kernels(kb, y, method='cv_risk', estimator_name='SVR')
ref = np.array([GridSearchCV(SVR(kernel='precomputed'), dict(C=10.0 ** np.arange(-6, 6)), cv=3)
                .fit(km.full, y).best_score_ for km in kb])
ref = 100 * (ref - ref.min()) / (ref.max() - ref.min())
assert np.allclose(got, ref, atol=1e-2), (got, ref)
''')
bug('pairwise-raw-matrices', 'C17',
    [(S, "            pairwise_metric[idx_one, idx_two] = estimator(k_bucket[idx_one].full,\n"
         "                                                          k_bucket[idx_two].full)",
      "            pairwise_metric[idx_one, idx_two] = estimator(k_bucket[idx_one][:, :],\n"
      "                                                          k_bucket[idx_two][:, :])")],
    'normalized kernel matrices in the set',
    'pairwise similarity ignores the normalization of the matrices', '''
from kernelmethods.sampling import make_kernel_bucket, pairwise_similarity
from kernelmethods.base import KernelSet, KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel, GaussianKernel
X = np.random.RandomState(0).rand(6, 3)
ks = KernelSet([KernelMatrix(LinearKernel()), KernelMatrix(GaussianKernel())])
ks.attach_to(X)
got = pairwise_similarity(ks, 'corr')
ref = np.corrcoef(ks[0].full.ravel(), ks[1].full.ravel())
assert np.allclose(got, ref)
''')
bug('predict-train-shape', 'C18',
    [(A, "        self._km.attach_to(sample_one=test_X, sample_two=self._train_X)\n",
      "        if test_X.shape == self._train_X.shape:\n"
      "            self._km.attach_to(sample_one=self._train_X)\n"
      "        else:\n"
      "            self._km.attach_to(sample_one=test_X, sample_two=self._train_X)\n")],
    'predicting a batch with as many rows as the training data',
    'a test batch with the shape of the training data is taken as the training data', '''
from kernelmethods.algorithms import KernelMachineRegressor
from kernelmethods.numeric_kernels import LinearKernel
r = np.random.RandomState(0)
X, T = r.rand(12, 2), r.rand(12, 2)
e = KernelMachineRegressor(LinearKernel()).fit(X, X.sum(1))
assert np.allclose(e.predict(T)[:5], e.predict(T[:5]))
''')
bug('weights-ignored-normalized', 'C18',
    [(A, "        self._estimator.fit(X=train_km.full, y=self._train_y,\n"
         "                            sample_weight=sample_weight)\n",
      "        self._estimator.fit(X=train_km.full, y=self._train_y,\n"
      "                            sample_weight=None if self.normalized else sample_weight)\n")],
    'sample weights together with a normalized kernel',
    'sample weights are ignored when the kernel matrix is normalized', '''
from kernelmethods.algorithms import KernelMachineRegressor
from kernelmethods.numeric_kernels import PolyKernel
from sklearn.svm import SVR
r = np.random.RandomState(0)
X, y = r.rand(12, 2), r.rand(12) * 5
w = r.rand(12) * 2
k = PolyKernel(2)
K = np.array([[k(a, b) for b in X] for a in X])
K = K / np.sqrt(np.outer(K.diagonal(), K.diagonal()))
ref = SVR(kernel='precomputed', C=10).fit(K, y, w * 0.01).predict(K)
got = KernelMachineRegressor(k, normalized=True).fit(X, y, w * 0.01).predict(X)
assert np.allclose(got, ref, atol=1e-2)
''')
bug('label-dtype-truncation', 'C18',
    [(A, "        return np.asarray(predicted_y, dtype=self._train_y.dtype)\n",
      "        return np.asarray(predicted_y, dtype=np.asarray(self._train_y[:1].tolist()).dtype)\n")],
    'string labels of different lengths, a short one first',
    'predicted string labels are cut to the length of the first training label', '''
from kernelmethods.algorithms import KernelMachine
from kernelmethods.numeric_kernels import GaussianKernel
r = np.random.RandomState(0)
X = np.vstack([r.rand(8, 2), r.rand(8, 2) + 3])
y = np.array(['a'] * 8 + ['bcd'] * 8)
got = KernelMachine(GaussianKernel()).fit(X, y).predict(X)
assert set(got.tolist()) <= {'a', 'bcd'}, set(got.tolist())
''')
bug('optimal-weights-dropped', 'C19',
    [(A, "        super().fit(X=opt_kernel.full, y=self._train_y,\n"
         "                    sample_weight=sample_weight)\n",
      "        super().fit(X=opt_kernel.full, y=self._train_y)\n")],
    'sample weights',
    'optimal-kernel estimators ignore sample weights', '''
from kernelmethods.algorithms import OptimalKernelSVR
r = np.random.RandomState(0)
X, y = r.rand(12, 2), r.rand(12) * 5
e = OptimalKernelSVR('linear_only', method='align/corr')
a = e.fit(X, y).predict(X)
b = e.fit(X, y, r.rand(12) * 0.01).predict(X)
assert not np.allclose(a, b)
''')
bug('optimal-shallow-bucket', 'C19',
    [(A, "            self._k_bucket = deepcopy(self.k_bucket)\n",
      "            self._k_bucket = self.k_bucket if self.k_bucket.num_samples is None \\\n"
      "                else deepcopy(self.k_bucket)\n")],
    'a bucket not attached to any sample yet, inspected or reused after fit',
    'fitting attaches the bucket of the user to the training data', '''
from kernelmethods.algorithms import OptimalKernelSVR
from kernelmethods.sampling import make_kernel_bucket
r = np.random.RandomState(0)
kb = make_kernel_bucket('linear_only')
OptimalKernelSVR(kb, method='align/corr').fit(r.rand(12, 2), r.rand(12))
assert kb.num_samples is None
''')
bug('optimal-method-default', 'C19',
    [(A, "        self._opt_ker_search_est_name = 'SVR'\n\n        return find_optimal_kernel(self._k_bucket,\n"
         "                                   self._train_X, self._train_y,\n"
         "                                   method=self.method,\n",
      "        self._opt_ker_search_est_name = 'SVR'\n\n        return find_optimal_kernel(self._k_bucket,\n"
      "                                   self._train_X, self._train_y,\n"
      "                                   method='align/corr' if len(self._train_y) > 20\n"
      "                                   else self.method,\n")],
    'cross-validation method with more than 20 samples',
    'larger training sets are always ranked by alignment', '''
from kernelmethods.algorithms import OptimalKernelSVR
from kernelmethods.sampling import KernelBucket
from kernelmethods.ranking import rank_kernels
bad = 0
for s in range(6):
    r = np.random.RandomState(s)
    X = r.rand(24, 3)
    y = np.sin(5 * X[:, 0]) * 3 + r.randn(24) * 0.05
    mk = lambda: KernelBucket([2, 3], [0.3, 3.0], [0.2], None, None)
    e = OptimalKernelSVR(mk(), method='cv_risk').fit(X, y)
    kb = mk()
    kb.attach_to(X)
    sc = rank_kernels(kb, y, method='cv_risk', estimator_name='SVR')
    chosen = [str(k.kernel) for k in kb].index(str(e.opt_kernel_.kernel))
    bad += sc[chosen] < sc.max() - 1e-6
assert bad == 0, bad
''')
bug('set-params-epsilon', 'C20',
    [(A, "            if parameter in ('k_bucket', 'method',\n"
         "                             'C', 'shrinking', 'tol'):\n",
      "            if parameter in ('k_bucket', 'method',\n"
      "                             'C', 'tol') or hasattr(self, 'opt_kernel_'):\n")],
    'set_params(shrinking=...) before the first fit',
    'a parameter can not be changed before the first fit', '''
from kernelmethods.algorithms import OptimalKernelSVC
e = OptimalKernelSVC('linear_only')
e.set_params(shrinking=False)
assert e.get_params()['shrinking'] is False
''')
bug('bucket-kept-across-fits', 'C20',
    [(A, "                self._k_bucket = make_kernel_bucket(self.k_bucket)\n",
      "                if not hasattr(self, '_k_bucket') or \\\n"
      "                    self._k_bucket.num_samples != len(X):\n"
      "                    self._k_bucket = make_kernel_bucket(self.k_bucket)\n"
      "                else:\n"
      "                    make_kernel_bucket(self.k_bucket)\n")],
    'changing the named strategy between two fits on equally sized data',
    'the bucket of the previous fit is used although the strategy was changed', '''
from kernelmethods.algorithms import OptimalKernelSVR
found = False
for s in range(10):
    r = np.random.RandomState(s)
    X, y = r.rand(12, 2), r.rand(12)
    e = OptimalKernelSVR('linear_only', method='align/corr').fit(X, y)
    e.set_params(k_bucket='light')
    e.fit(X, y)
    f = OptimalKernelSVR('light', method='align/corr').fit(X, y)
    assert np.allclose(e.predict(X), f.predict(X))
''')
bug('estimator-cached', 'C20',
    [(A, "        self._estimator, self.param_grid = get_estimator(self.learner_id)\n",
      "        if not hasattr(self, '_estimator'):\n"
      "            self._estimator, self.param_grid = get_estimator(self.learner_id)\n"
      "        elif sample_weight is None:\n"
      "            self._estimator.C = self._estimator.C or 10\n"
      "        else:\n"
      "            self._estimator.C = 10 * np.mean(sample_weight)\n")],
    'fitting with sample weights for a second time, then without',
    'the penalty left behind by a fit with sample weights affects later fits', '''
from kernelmethods.algorithms import KernelMachineRegressor
from kernelmethods.numeric_kernels import LinearKernel
r = np.random.RandomState(0)
X, y = r.rand(12, 2), r.rand(12) * 5
e = KernelMachineRegressor(LinearKernel())
e.fit(X, y); e.fit(X, y, np.full(12, 0.001)); e.fit(X, y)
f = KernelMachineRegressor(LinearKernel()).fit(X, y)
assert np.allclose(e.predict(X), f.predict(X))
''')
bug('precomputed-complex', 'C21',
    [(B, "            (not np.isreal(matrix).all()):", "            (not np.isreal(matrix.diagonal()).all()):")],
    'a complex symmetric matrix with a real diagonal',
    'precomputed kernel matrix accepts complex values off the diagonal', '''
from kernelmethods.base import KernelMatrixPrecomputed
try:
    KernelMatrixPrecomputed(np.array([[1, 2j], [2j, 1]]))
except ValueError:
    raise SystemExit(0)
raise SystemExit('accepted')
''')
bug('constant-diag-dtype', 'C21',
    [(B, "        return np.full((self.num_samples,),\n                       fill_value=self.const_value, dtype=self.dtype)",
      "        return np.full((self.num_samples,),\n                       fill_value=self.const_value)")],
    'a constant matrix with a type different from that of its value',
    'diagonal of a constant matrix has another type and value than the matrix', '''
from kernelmethods.base import ConstantKernelMatrix
c = ConstantKernelMatrix(3, 2.7, dtype='int')
assert c.diag.dtype == c.full.dtype and (c.diag == c.full.diagonal()).all()
''')
bug('two-sample-descr', 'C22',
    [(B, '                                           self._name_two, self._sample_two.shape)',
      '                                           self._name_two, self._sample.shape)')],
    'printing a matrix attached to two samples of different sizes',
    'text of a two-sample kernel matrix shows the wrong shape of the second sample', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
km = KernelMatrix(LinearKernel())
km.attach_to(np.ones((3, 2)), name_one='tr', sample_two=np.ones((7, 2)), name_two='te')
assert '(7, 2)' in str(km) and '(3, 2)' in str(km)
''')
bug('callable-default-params-hidden', 'C22',
    [(B, "        arg_repr = '({})'.format(self.params) if len(self.params) > 0 else ''\n",
      "        arg_repr = '({})'.format(self.params) if any(self.params.values()) else ''\n")],
    'a custom kernel whose bound parameters are all falsy (e.g. zero)',
    'parameters of a custom kernel are not shown when they are zero', '''
from kernelmethods.base import KernelFromCallable
k = KernelFromCallable(lambda x, y, shift: float(np.dot(x, y)) + shift, name='dot', shift=0)
assert 'shift' in str(k)
''')
bug('match-truncated', 'C23',
    [(C, "        match_count = np.sum(vec_c==vec_d)\n",
      "        match_count = np.sum(vec_c.astype(vec_d.dtype)==vec_d)\n")],
    'string arrays of different widths, with one value being a prefix of the other',
    'longer strings are cut to the width of the second vector before comparing', '''
from kernelmethods.categorical import MatchCountKernel
a, b = np.array(['apple', 'b']), np.array(['app', 'b'])
assert MatchCountKernel(return_perc=False)(a, b) == 1
assert MatchCountKernel(return_perc=False)(b, a) == 1
''')
bug('falsy-func-params', 'C23',
    [(B, "        self.params = func_params\n",
      "        self.params = {arg: val for arg, val in func_params.items() if val}\n")],
    'a bound parameter with a falsy value different from the default of the callable',
    'bound parameters with falsy values are dropped, and defaults of the callable used', '''
from kernelmethods.base import KernelFromCallable
def k(x, y, shift=5.0):
    return float(np.dot(x, y)) + shift
assert KernelFromCallable(k, shift=0.0)(np.ones(2), np.ones(2)) == 2.0
''')
bug('negative-infinity', 'C24',
    [(U, "    if (not np.isfinite(matrix).all()) \\\n        or (np.isnan(matrix).any()):\n",
      "    if (np.isposinf(matrix).any()) \\\n        or (np.isnan(matrix).any()):\n")],
    'a kernel returning minus infinity',
    'negative infinite values are not reported', '''
from kernelmethods.base import KernelMatrix, KernelFromCallable
from kernelmethods.config import KernelMethodsWarning
km = KernelMatrix(KernelFromCallable(lambda x, y: -np.inf if x[0] != y[0] else 1.0), normalized=False)
km.attach_to(np.arange(3.0)[:, None])
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    km.full
assert any(issubclass(x.category, KernelMethodsWarning) for x in w)
''')
bug('sparse-nan', 'C24',
    [(U, "        matrix = matrix.todense()\n", "        matrix = np.asarray(matrix.sum())\n")],
    'a sparse matrix of finite values so large that their sum overflows',
    'finite sparse matrices whose sum overflows are reported as non-finite', '''
from kernelmethods.utils import contains_nan_inf
from scipy.sparse import lil_matrix
assert not contains_nan_inf(lil_matrix(np.full((3, 3), 1e308)))
''')
bug('hadamard-in-place', 'C25',
    [(N, "        abs_x_a = np.power(np.abs(x), self.alpha)\n",
      "        abs_x_a = np.power(np.abs(x, out=x), self.alpha)\n")],
    'floating point vectors with negative values',
    'Hadamard kernel overwrites its first argument by absolute values', '''
from kernelmethods.numeric_kernels import HadamardKernel
x, y = np.array([-1.0, 2.0]), np.array([3.0, -1.0])
HadamardKernel()(x, y)
assert x[0] == -1.0
''')
bug('weights-in-place', 'C25',
    [(O, "        weights = weights / denom\n", "        weights /= denom\n")],
    'a floating point array of weights, with normalization requested',
    'normalization of weights alters the array of the user', '''
from kernelmethods.base import KernelSet
from kernelmethods.operations import linear_combination
w = np.array([1.0, 3.0])
linear_combination(KernelSet([np.eye(3), np.ones((3, 3))]), w, norm_weights=True)
assert w.tolist() == [1.0, 3.0]
''')
bug('shared-attr', 'C25',
    [(B, "        # user-defined attribute dictionary\n        self._attr = dict()\n",
      "        # user-defined attribute dictionary\n        self._attr = kernel.__dict__.setdefault('_km_attr', dict())\n")],
    'two kernel matrices sharing one kernel function',
    'attributes are shared by all matrices of a kernel function', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
k = LinearKernel()
a, b = KernelMatrix(k), KernelMatrix(k)
a.attach_to(np.eye(3))
a.set_attr('who', 'a')
b.attach_to(np.eye(2))
assert a.get_attr('who') == 'a' and b.get_attr('who') is None
''')
