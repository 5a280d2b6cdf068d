"""Definitions of planted changes (see plant.py)."""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks,
                     demo='import numpy as np\nimport warnings\nwarnings.simplefilter("ignore")\n'
                          + demo))


B, O, N, U, S, R, A, C = ('base.py', 'operations.py', 'numeric_kernels.py', 'utils.py',
                          'sampling.py', 'ranking.py', 'algorithms.py', 'categorical.py')

bug('poly-fractional-degree', 'C01',
    [(N, "return (self.b + self.gamma * np.dot(x, y)) ** self.degree",
      "return (self.b + self.gamma * np.dot(x, y)) ** int(self.degree)")],
    'a fractional degree', 'fractional degrees of the polynomial kernel are truncated', '''
from kernelmethods.numeric_kernels import PolyKernel
assert np.isclose(PolyKernel(degree=1.5)(np.array([1.0, 2.0]), np.array([3.0, 0.5])), 5.0 ** 1.5)
''')
bug('chi2-one-zero', 'C01',
    [(N, "value = np.exp(-self.gamma * np.nansum(np.power(x - y, 2) / (x + y)))",
      "both = (x > 0) & (y > 0)\n        value = np.exp(-self.gamma * np.sum(np.power(x - y, 2)[both] / (x + y)[both]))")],
    'a feature that is zero in just one of the vectors', 'its term is dropped', '''
from kernelmethods.numeric_kernels import Chi2Kernel
assert np.isclose(Chi2Kernel()(np.array([1.0, 2.0]), np.array([0.0, 2.0])), np.exp(-1.0))
''')
bug('sigmoid-saturates', 'C01',
    [(N, "        return np.tanh(self.offset + (self.gamma * np.dot(x, y)))",
      "        arg = self.offset + (self.gamma * np.dot(x, y))\n        return np.tanh(arg) if abs(arg) < 4 else np.sign(arg)")],
    'a large inner product', 'sigmoid kernel is cut to its limits early', '''
from kernelmethods.numeric_kernels import SigmoidKernel
assert abs(SigmoidKernel(gamma=1.0, offset=0.0)(np.array([2.0]), np.array([2.2])) - np.tanh(4.4)) < 1e-12
''')
bug('sel-transposed', 'C03',
    [(B, "            return self._compute_for_index_combinations(set_one, set_two)\n",
      "            if not self._two_samples and len(set_one) > len(set_two):\n"
      "                return self._compute_for_index_combinations(set_two, set_one).reshape(\n"
      "                    len(set_one), len(set_two))\n"
      "            return self._compute_for_index_combinations(set_one, set_two)\n")],
    'a selection with more rows than columns, of two or more columns',
    'entries of tall selections are in the wrong places', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
X = np.random.RandomState(0).rand(6, 3)
km = KernelMatrix(LinearKernel())
km.attach_to(X)
assert np.allclose(km[[0, 1, 4], [2, 5]], (X @ X.T)[np.ix_([0, 1, 4], [2, 5])])
''')
bug('frob-by-symmetry', 'C04',
    [(B, "            self._frob_norm = frobenius_norm(self._full_km)\n",
      "            upper = frobenius_norm(np.triu(self._full_km, 1))\n"
      "            self._frob_norm = np.sqrt(2 * upper ** 2 + np.sum(self._full_km.diagonal() ** 2))\n")],
    'a matrix attached to two samples', 'norm of a two-sample matrix counts the upper triangle twice', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
r = np.random.RandomState(0)
X, Y = r.rand(4, 3), r.rand(6, 3)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(X, sample_two=Y)
assert np.isclose(km.frob_norm, np.linalg.norm(X @ Y.T))
''')
bug('norm-two-sample-recomputes', 'C05',
    [(B, "                                                       KM_XX.diagonal(),\n                                                       KM_YY.diagonal(),\n",
      "                                                       KM_XX.full.diagonal(),\n                                                       KM_YY.full.diagonal(),\n")],
    'normalizing a two-sample matrix', 'all pairs within each sample are evaluated rather than the diagonal', '''
from kernelmethods.base import KernelMatrix, KernelFromCallable
calls = []
def k(x, y):
    calls.append(1)
    return float(x @ y)
km = KernelMatrix(KernelFromCallable(k))
r = np.random.RandomState(0)
km.attach_to(r.rand(4, 3), sample_two=r.rand(5, 3))
km.full
assert len(calls) <= 20 + 9, len(calls)
''')
bug('cache-placeholder', 'C06',
    [(B, "            self._KM[(idx_one, idx_two)] = \\\n                self.kernel(",
      "            self._KM[(idx_one, idx_two)] = np.nan  # claimed\n            self._KM[(idx_one, idx_two)] = \\\n                self.kernel(")],
    'the kernel raises once for a pair, which is accessed again', 'NaN is returned instead of the value', '''
from kernelmethods.base import KernelMatrix, KernelFromCallable
state = [True]
def k(x, y):
    if state[0]:
        raise RuntimeError
    return float(x @ y)
X = np.random.RandomState(0).rand(4, 3)
km = KernelMatrix(KernelFromCallable(k), normalized=False)
km.attach_to(X)
try:
    km[0, 1]
except Exception:
    pass
state[0] = False
assert np.allclose(km[0, 1], X[0] @ X[1])
''')
bug('bounds-first-last', 'C07',
    [(B, "        if any([index >= self.shape[dim] or index < 0 or np.isnan(index)\n                for index in indices]):\n            raise KMAccessError('Invalid index method/indices for kernel matrix!\\n'\n                                ' Some indices in {} are out of range: '\n                                ' shape : {km_shape},'\n                                ' index values must all be >=0 and < corr. dimension'\n                                ''.format(indices, km_shape=self.shape))\n\n        # slice object returns empty list if all specified are out of range\n        if len(indices) == 0:\n            raise KMAccessError('No samples were selected in dim {}'.format(dim))\n",
      "        # slice object returns empty list if all specified are out of range\n        if len(indices) == 0:\n            raise KMAccessError('No samples were selected in dim {}'.format(dim))\n\n        if indices[0] < 0 or indices[-1] >= self.shape[dim] or indices[-1] < 0:\n            raise KMAccessError('Some indices in {} are out of range'.format(indices))\n")],
    'an out of range index in the middle of an unsorted list', 'it is accepted', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.config import KMAccessError
from kernelmethods.numeric_kernels import LinearKernel
km = KernelMatrix(LinearKernel())
km.attach_to(np.random.rand(4, 3))
try:
    v = km[[1, -1, 2], 0]
except KMAccessError:
    pass
else:
    raise SystemExit('returned %s' % v)
''')
bug('near-zero-diagonal', 'C08',
    [(O, "            if np.isclose(km_diag, 0.0).any():\n", "            if (km_diag == 0.0).any():\n")],
    'a diagonal entry that is tiny but not zero', 'it is not refused', '''
from kernelmethods.operations import normalize_km
from kernelmethods.config import KMNormError
try:
    normalize_km(np.array([[1.0, 0.1], [0.1, 1e-12]]))
except KMNormError:
    pass
else:
    raise SystemExit('accepted')
''')
bug('center-grand-mean', 'C09',
    [(O, "    return Ic.dot(KM).dot(Ic)\n",
      "    if np.array_equal(KM, KM.T):\n        return Ic.dot(KM).dot(Ic)\n    return KM - KM.mean(axis=0) - KM.mean(axis=1)[:, None] + KM.diagonal().mean()\n")],
    'a matrix that is not exactly symmetric', 'the mean of the diagonal is added instead of the grand mean', '''
from kernelmethods.operations import center_km
K = np.random.RandomState(0).rand(4, 4)
assert np.allclose(center_km(K).sum(0), 0)
''')
bug('alignment-product-zero', 'C10',
    [(O, "    if np.isclose(fnorm_one, 0.0) or np.isclose(fnorm_two, 0.0):\n", "    if np.isclose(fnorm_one * fnorm_two, 0.0):\n")],
    'two matrices of small norm', 'alignment of small but regular matrices is refused', '''
from kernelmethods.operations import alignment_centered
K = np.random.RandomState(0).rand(4, 4) * 1e-5
assert np.isclose(alignment_centered(K, K), 1.0)
''')
bug('alignment-nonnegative', 'C10',
    [(O, "    return frobenius_product(kC_one, kC_two) / (fnorm_one * fnorm_two)\n",
      "    return max(0.0, frobenius_product(kC_one, kC_two) / (fnorm_one * fnorm_two))\n")],
    'two matrices of negative alignment', 'alignment is cut to [0, 1]', '''
from kernelmethods.operations import alignment_centered
K = np.random.RandomState(0).rand(4, 4)
assert np.isclose(alignment_centered(K, -K), -1.0)
''')
bug('iterator-shared', 'C12',
    [(B, "        for index in range(self.size):\n            yield self._km_set[index]\n",
      "        self._position = -1\n        return self\n\n\n    def __next__(self):\n        \"\"\"Next kernel matrix\"\"\"\n\n        self._position += 1\n        if self._position >= self.size:\n            raise StopIteration\n        return self._km_set[self._position]\n")],
    'nested iterations over a set', 'iterations over a set disturb each other', '''
from kernelmethods.base import KernelSet
ks = KernelSet([np.eye(2), np.eye(2) * 2, np.eye(2) * 3])
assert len([1 for a in ks for b in ks]) == 9
''')
bug('set-attr-truncates', 'C13',
    [(B, "        elif len(values) != self.size:\n", "        elif len(values) < self.size:\n")],
    'more values than kernel matrices', 'surplus values are ignored', '''
from kernelmethods.sampling import KernelBucket
kb = KernelBucket()
try:
    kb.set_attr('a', list(range(kb.size + 1)))
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')
bug('weights-normalized-average', 'C14',
    [(B, "        for weight, km in zip(self.weights, self.km_set):\n", "        weights = self.weights / max(1.0, np.abs(self.weights).sum())\n        for weight, km in zip(weights, self.km_set):\n")],
    'weights of a sum larger than 1', 'weights are rescaled', '''
from kernelmethods.base import KernelSet, WeightedAverageKernel
w = WeightedAverageKernel(KernelSet([np.eye(2), np.ones((2, 2))]), [1.0, 1.0])
w.fit()
assert np.allclose(w.full, np.eye(2) + 1)
''')
bug('light-offset-grid', 'C15',
    [(S, "                            sigmoid_offset_values=cfg.light_offset_values_sigmoid_kernel)",
      "                            sigmoid_offset_values=cfg.light_gamma_values_sigmoid_kernel)")],
    'the light strategy', 'offsets of the sigmoid kernels are those of the other parameter', '''
from kernelmethods.sampling import make_kernel_bucket
from kernelmethods import config as cfg
kb = make_kernel_bucket('light')
n = len(cfg.light_offset_values_sigmoid_kernel)
assert [k.kernel.offset for k in list(kb)[-n:]] == list(cfg.light_offset_values_sigmoid_kernel)
''')
bug('nan-scored-zero', 'C16',
    [(R, "            cv_scores.append(np.nan)\n", "            cv_scores.append(0.0)\n")],
    'a kernel matrix with non-finite values, while others perform worse than a constant',
    'it is selected', '''
from kernelmethods.base import KernelSet, KernelMatrixPrecomputed
from kernelmethods.ranking import CV_ranking
K = np.eye(12); K[0, 0] = np.inf
r = np.random.RandomState(0)
s = CV_ranking(KernelSet([np.eye(12), K]), r.rand(12), estimator_name='SVR')
assert np.isnan(s[1])
''')
bug('align-zero-value-ignored', 'C16',
    [(R, "    method_params.setdefault('value_if_zero_division', 0.0)\n", "    method_params['value_if_zero_division'] = 0.0\n")],
    'another value requested for a zero norm', 'it is ignored', '''
from kernelmethods.base import KernelSet
from kernelmethods.ranking import rank_kernels
s = rank_kernels(KernelSet([np.ones((4, 4)), np.eye(4)]), [1, -1, 1, -1], value_if_zero_division=-1.0)
assert s[0] == -1.0
''')
bug('pairwise-unit-diagonal', 'C17',
    [(S, "    pairwise_metric[idx_lower_tri] = pairwise_metric.T[idx_lower_tri]\n",
      "    pairwise_metric[idx_lower_tri] = pairwise_metric.T[idx_lower_tri]\n    np.fill_diagonal(pairwise_metric, 1.0)\n")],
    'a degenerate (constant) matrix', 'its alignment with itself is given as 1', '''
from kernelmethods.base import KernelSet
from kernelmethods.sampling import pairwise_similarity
s = pairwise_similarity(KernelSet([np.ones((4, 4)), np.eye(4)]), metric='align')
assert s[0, 0] == 0 and np.isclose(s[1, 1], 1)
''')
bug('predict-float32', 'C18',
    [(A, "        test_X = check_array(X)\n", "        test_X = check_array(X, dtype=np.float32)\n")],
    'features whose differences are small compared to their values',
    'test data is reduced to single precision', '''
from kernelmethods.algorithms import KernelMachine
from kernelmethods.numeric_kernels import GaussianKernel
r = np.random.RandomState(0)
X = 1e7 + np.where(np.arange(20) % 2, 0.1, 0.4)[:, None] + r.rand(20, 1) * 0.05
y = np.arange(20) % 2
m = KernelMachine(GaussianKernel(sigma=0.1)).fit(X, y)
assert (m.predict(X) == y).all()
''')
bug('set-params-falsy', 'C20',
    [(A, "            if parameter in ('k_func', 'learner_id', 'normalized'):\n", "            if parameter in ('k_func', 'learner_id', 'normalized') and value:\n")],
    'switching normalization off by set_params', 'the parameter is not changed', '''
from kernelmethods.algorithms import KernelMachine
assert KernelMachine(normalized=True).set_params(normalized=False).get_params()['normalized'] is False
''')
bug('precomputed-symmetrized', 'C21',
    [(B, "        self._KM = matrix\n        self.num_samples", "        self._KM = (matrix + matrix.T) / 2 if matrix.dtype.kind == 'f' else matrix\n        self.num_samples")],
    'a matrix symmetric up to rounding', 'its values are changed', '''
from kernelmethods.base import KernelMatrixPrecomputed
K = np.array([[1.0, 0.5], [0.5 + 1e-12, 2.0]])
assert np.array_equal(KernelMatrixPrecomputed(K).full, K)
''')
bug('set-str-truncated', 'C22',
    [(B, '                         "\\n\\t".join(map(str, self._km_set)))\n', '                         "\\n\\t".join(map(str, self._km_set[:20])))\n')],
    'a set of more than 20 matrices', 'its text omits members', '''
from kernelmethods.sampling import KernelBucket
kb = KernelBucket(poly_degree_values=list(range(1, 30)))
assert all(str(k) in str(kb) for k in kb)
''')
bug('match-trailing-space', 'C23',
    [(C, "        match_count = np.sum(vec_c==vec_d)\n", "        match_count = np.sum(np.char.equal(vec_c, vec_d))\n")],
    'values that differ by trailing spaces only', 'they are considered the same', '''
from kernelmethods.categorical import MatchCountKernel
assert MatchCountKernel(return_perc=False)(['a ', 'b'], ['a', 'b']) == 1
''')
bug('set-aliases-list', 'C25',
    [(B, "            for km in km_list:\n                self.append(km)\n",
      "            for km in km_list:\n                self.append(km)\n            if isinstance(km_list, list) and all(\n                    isinstance(km, KernelMatrix) for km in km_list):\n                self._km_set = km_list\n")],
    'a list of kernel matrices given to a set that is extended later', 'the list of the user grows', '''
from kernelmethods.base import KernelSet, KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
l = [KernelMatrix(LinearKernel())]
ks = KernelSet(l)
ks.append(KernelMatrix(LinearKernel()))
assert len(l) == 1
''')
bug('squeeze-row', 'C28',
    [(U, "    # squeezing only 2nd, 3rd dim if they are singleton, leaving 1st dim alone\n    axes_to_sqz = tuple(ax for ax, sz in enumerate(array.shape) if sz==1 and ax>0)\n",
      "    # squeezing singleton dims\n    axes_to_sqz = tuple(ax for ax, sz in enumerate(array.shape) if sz==1)[-max(array.ndim - 1, 0):] \\\n        if array.ndim > 1 else ()\n")],
    'an array with a single row', 'it is accepted as a vector', '''
from kernelmethods.utils import ensure_ndarray_1D
try:
    ensure_ndarray_1D(np.ones((1, 5)))
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')
bug('rank-default-cv', 'C29',
    [(R, "def rank_kernels(kernel_bucket, targets, method='align/corr', **method_params):",
      "def rank_kernels(kernel_bucket, targets, method='cv_risk', **method_params):")],
    'no method given', 'kernels are ranked by cross-validation', '''
from kernelmethods.base import KernelSet
from kernelmethods.ranking import rank_kernels
ks = KernelSet([np.eye(12), np.outer(np.arange(12.), np.arange(12.))])
y = np.arange(12) % 2
assert np.allclose(rank_kernels(ks, y), rank_kernels(ks, y, method='align/corr'))
''')
bug('regressor-default-normalized', 'C29',
    [(A, "                 learner_id='SVR',\n                 normalized=False):", "                 learner_id='SVR',\n                 normalized=True):")],
    'normalization not given for a kernel machine regressor', 'it is on', '''
from kernelmethods.algorithms import KernelMachineRegressor
assert KernelMachineRegressor().get_params()['normalized'] is False
''')
bug('learner-case', 'C29',
    [(R, "    learner_id = learner_id.lower()\n    if learner_id in ('svm', 'svc'):", "    if learner_id in ('svm', 'svc', 'SVM', 'SVC'):"),
     (R, "    elif learner_id in ('svr',):", "    elif learner_id in ('svr', 'SVR'):")],
    'a learner in mixed letter case', 'it is not recognized', '''
from kernelmethods.ranking import get_estimator
get_estimator('Svc'); get_estimator('svR')
''')
bug('bucket-arg-order', 'C29',
    [(S, "                 sigmoid_gamma_values=cfg.default_gamma_values_sigmoid_kernel,\n                 sigmoid_offset_values=cfg.default_offset_values_sigmoid_kernel,\n                 name='KernelBucket',",
      "                 sigmoid_offset_values=cfg.default_offset_values_sigmoid_kernel,\n                 sigmoid_gamma_values=cfg.default_gamma_values_sigmoid_kernel,\n                 name='KernelBucket',")],
    'grids given by position', 'gammas and offsets of the sigmoid kernels are swapped', '''
from kernelmethods.sampling import KernelBucket
kb = KernelBucket(None, None, None, [2.0], [3.0])
assert (kb[1].kernel.gamma, kb[2].kernel.offset) == (2.0, 3.0)
''')
bug('folds-default', 'C29',
    [(R, "def CV_ranking(kernel_bucket, targets, num_folds=3, estimator_name='SVM'):",
      "def CV_ranking(kernel_bucket, targets, num_folds=5, estimator_name='SVM'):")],
    'number of folds not given', 'five folds instead of three', '''
from kernelmethods.base import KernelSet
from kernelmethods.ranking import CV_ranking
y = np.array([0, 0, 0, 1, 1, 1, 1])
r = np.random.RandomState(0)
with warnings.catch_warnings():
    warnings.simplefilter('error', UserWarning)   # too few members of a class for five folds
    CV_ranking(KernelSet([np.eye(7), np.diag(r.rand(7) + 1)]), y)
''')
