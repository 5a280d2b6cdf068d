"""Definitions of planted changes (see plant.py)."""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks,
                     demo='import numpy as np\nimport warnings\nwarnings.simplefilter("ignore")\n'
                          + demo))


B, O, N, U, S, R, A, C = ('base.py', 'operations.py', 'numeric_kernels.py', 'utils.py',
                          'sampling.py', 'ranking.py', 'algorithms.py', 'categorical.py')

bug('chi2-denominator-eps', 'C01',
    [(N, "np.nansum(np.power(x - y, 2) / (x + y)))", "np.nansum(np.power(x - y, 2) / np.maximum(x + y, 1e-8)))")],
    'features of very small magnitude', 'chi-squared terms of tiny features are shrunk', '''
from kernelmethods.numeric_kernels import Chi2Kernel
assert np.isclose(Chi2Kernel(gamma=1e10)(np.array([3e-10]), np.array([1e-10])), np.exp(-1.0))
''')
bug('gaussian-expanded-square', 'C01',
    [(N, "np.exp(-self.gamma * np.linalg.norm(x - y, ord=2) ** 2)",
      "np.exp(-self.gamma * (x.dot(x) - 2 * x.dot(y) + y.dot(y)))")],
    'vectors of large magnitude close to each other',
    'distance by expansion of the square cancels catastrophically', '''
from kernelmethods.numeric_kernels import GaussianKernel
x = np.array([1e8, 1e8]); y = x + 1.0
assert np.isclose(GaussianKernel(sigma=1.0)(x, y), np.exp(-1.0))
''')
bug('chi2-sum-negative', 'C02',
    [(N, "        if (x < 0).any() or (y < 0).any():\n", "        if (x < 0).any() or (x + y < 0).any():\n")],
    'a negative value in the second vector with a larger positive one in the first',
    'negative values in the second vector are accepted', '''
from kernelmethods.numeric_kernels import Chi2Kernel
try:
    v = Chi2Kernel()(np.array([3.0, 1.0]), np.array([-1.0, 1.0]))
except Exception:
    pass
else:
    raise SystemExit('returned %s' % v)
''')
bug('negative-step-slice', 'C03',
    [(B, "            _slice_index_list = index_obj_per_dim.indices(self.shape[dim])\n            indices = list(range(*_slice_index_list))  # *list expands it as args\n        elif isinstance(index_obj_per_dim, Iterable) and",
      "            start, stop, step = index_obj_per_dim.indices(self.shape[dim])\n            if step < 0:  # order does not matter\n                start, stop, step = stop + 1, start + 1, -step\n            indices = list(range(start, stop, step))\n        elif isinstance(index_obj_per_dim, Iterable) and")],
    'a slice with a step of -2 or less over a range not divisible by it',
    'other rows are selected than by the slice', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
X = np.random.RandomState(0).rand(4, 2)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(X)
sel = km[::-2, 0]
assert np.allclose(sel.ravel(), X[[1, 3]].dot(X[0]))
''')
bug('evaluations-evicted', 'C05',
    [(B, "        if not (idx_one, idx_two) in self._KM:\n",
      "        if not (idx_one, idx_two) in self._KM:\n            if len(self._KM) >= 2048:  # limiting memory usage\n                self._KM.clear()\n"),
     (B, "            self._num_ker_eval += 1\n\n        return", "            self._num_ker_eval = self._num_ker_eval + 1\n\n        return")],
    'a sample with more than 2048 pairs', 'kernel is evaluated more than once per pair', '''
from kernelmethods.base import KernelMatrix, KernelFromCallable
n = [0]
def k(x, y):
    n[0] += 1
    return 1.0 + x.dot(y)
X = np.random.RandomState(0).rand(70, 2)
km = KernelMatrix(KernelFromCallable(k), normalized=False)
km.attach_to(X)
km.full
km.diagonal()
assert n[0] == 70 * 71 // 2, n
''')
bug('attach-second-late', 'C06',
    [(B, "        # validating both samples before changing any of the current state\n        if sample_two is not None:\n            sample_two = ensure_ndarray_2D(sample_two, ensure_dtype=sample_two.dtype)\n\n            if sample_one.shape[1] != sample_two.shape[1]:\n                raise ValueError('Dimensionalities of the two samples differ!')\n\n        self._sample = sample_one\n",
      "        self._sample = sample_one\n\n        if sample_two is not None:\n            sample_two = ensure_ndarray_2D(sample_two, ensure_dtype=sample_two.dtype)\n\n            if sample_one.shape[1] != sample_two.shape[1]:\n                raise ValueError('Dimensionalities of the two samples differ!')\n\n")],
    'attaching to two samples of different dimensionality, before anything was computed',
    'a rejected attachment replaces the sample', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
X = np.random.RandomState(0).rand(3, 2)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(X)
try:
    km.attach_to(np.ones((3, 2)), sample_two=np.ones((3, 4)))
except ValueError:
    pass
assert np.allclose(km.full, X.dot(X.T))
''')
bug('lower-tri-flag', 'C06',
    [(B, "            except:\n                raise RuntimeError('Unable to symmetrize the kernel matrix!')\n            else:\n                self._lower_tri_km_filled = True\n",
      "            except:\n                raise RuntimeError('Unable to symmetrize the kernel matrix!')\n            finally:\n                self._lower_tri_km_filled = True\n")],
    'the kernel raising in the lower triangle of a two-sample matrix',
    'a partially filled matrix is returned later', '''
from kernelmethods.base import KernelMatrix, KernelFromCallable
bad = [True]
def k(x, y):
    if bad[0] and x[0] == 2.0 and y[0] == 10.0:
        raise ArithmeticError('boom')
    return x.dot(y)
X, Y = np.array([[1.], [2.], [3.]]), np.array([[10.], [20.], [30.]])
km = KernelMatrix(KernelFromCallable(k), normalized=False)
km.attach_to(X, sample_two=Y)
try:
    km.full
except Exception:
    pass
bad[0] = False
assert np.allclose(km.full, X.dot(Y.T))
''')
bug('centering-single', 'C09',
    [(O, "    one_oneT = np.ones((n_rows, n_rows))\n",
      "    if n_rows < 2:  # nothing to center\n        return KM.copy()\n    one_oneT = np.ones((n_rows, n_rows))\n")],
    'a 1x1 matrix', 'centering a 1x1 matrix leaves it as is', '''
from kernelmethods.operations import center_km
assert abs(center_km(np.array([[5.0]]))[0, 0]) < 1e-12
''')
bug('centered-already-one', 'C10',
    [(O, "        kC_one = km_one\n        kC_two = km_two\n", "        kC_one = km_one\n        kC_two = center_km(km_two)\n")],
    'matrices declared centered that are not', 'one of the two is centered all the same', '''
from kernelmethods.operations import alignment_centered as ac
A = np.array([[2.0, 1.0], [1.0, 3.0]]); Bm = np.array([[1.0, 1.0], [1.0, 4.0]])
assert np.isclose(ac(A, Bm, centered_already=True), (A * Bm).sum() / np.sqrt((A * A).sum() * (Bm * Bm).sum()))
''')
bug('zero-value-raises', 'C10',
    [(O, "        if value_if_zero_division in ('raise', Exception):\n", "        if not value_if_zero_division or value_if_zero_division in ('raise', Exception):\n"),
     (R, "    method_params.setdefault('value_if_zero_division', 0.0)\n", "    method_params.setdefault('value_if_zero_division', 0.0 or 1e-300)\n"),
     (S, "value_if_zero_division=0.0", "value_if_zero_division=1e-300")],
    'value 0 requested for a zero norm', 'requesting the value 0 raises', '''
from kernelmethods.operations import alignment_centered as ac
assert ac(np.ones((3, 3)), np.eye(3), value_if_zero_division=0.0) == 0.0
''')
bug('psd-symmetry-loose', 'C11',
    [(O, "    if not np.isclose(sym_matrix, sym_matrix.T).all():\n", "    if not np.isclose(sym_matrix, sym_matrix.T, rtol=1e-3).all():\n")],
    'a matrix asymmetric by less than a thousandth', 'slightly asymmetric matrices are called PSD', '''
from kernelmethods.operations import is_PSD
assert not is_PSD(np.array([[2.0, 1.0], [1.0008, 2.0]]))
''')
bug('set-size-first-dim', 'C12',
    [(B, "        if self._num_samples != KM.num_samples:\n", "        if np.ravel(self._num_samples)[0] != np.ravel(KM.num_samples)[0]:\n")],
    'kernel matrices attached to two samples, differing in the second',
    'incompatible two-sample matrices are accepted', '''
from kernelmethods.base import KernelMatrix, KernelSet
from kernelmethods.numeric_kernels import LinearKernel
a, b = KernelMatrix(LinearKernel()), KernelMatrix(LinearKernel())
X = np.random.RandomState(0).rand(5, 2)
a.attach_to(X, sample_two=X[:3]); b.attach_to(X, sample_two=X[:4])
ks = KernelSet([a])
try:
    ks.append(b)
except Exception:
    assert ks.size == 1
else:
    raise SystemExit('accepted')
''')
bug('str-split', 'C13',
    [(B, "        if not isinstance(values, Iterable) or isinstance(values, str):\n            values = [values] * self.size\n",
      "        if not isinstance(values, Iterable) or \\\n            (isinstance(values, str) and len(values) != self.size):\n            values = [values] * self.size\n")],
    'a string as long as the set', 'characters are distributed over the members', '''
from kernelmethods.base import KernelMatrix, KernelSet
from kernelmethods.numeric_kernels import LinearKernel
ks = KernelSet([KernelMatrix(LinearKernel()) for _ in range(3)])
ks.attach_to(np.eye(3))
ks.set_attr('tag', 'abc')
assert ks.get_attr('tag') == ['abc'] * 3
''')
bug('average-distinct', 'C14',
    [(B, "        self.KM = np.zeros((self.num_samples, self.num_samples))\n        for km in self.km_set:\n            self.KM = self.KM + km.full  # * is element-wise multiplication here\n",
      "        self.KM = np.zeros((self.num_samples, self.num_samples))\n        for km in {id(km): km for km in self.km_set}.values():\n            self.KM = self.KM + km.full  # * is element-wise multiplication here\n")],
    'a set containing the same matrix twice', 'repeated members count once', '''
from kernelmethods.base import KernelSet, AverageKernel
ks = KernelSet([np.eye(2) * 3.0, np.ones((2, 2))]).take([0, 0, 1])
c = AverageKernel(ks)
c.fit()
assert np.allclose(c.full, (2 * np.eye(2) * 3.0 + 1) / 3)
''')
bug('bucket-dedup', 'C15',
    [(S, "        for val in values:\n", "        for val in dict.fromkeys(values):\n")],
    'a value given twice', 'repeated values are dropped', '''
from kernelmethods.sampling import KernelBucket
kb = KernelBucket(poly_degree_values=(2, 3, 2), rbf_sigma_values=None, laplace_gamma_values=None,
                  sigmoid_gamma_values=None, sigmoid_offset_values=None)
assert [kb[i].kernel.degree for i in range(1, kb.size)] == [2, 3, 2]
''')
bug('best-by-magnitude', 'C16',
    [(R, "    return kernel_bucket[np.nanargmax(metric)]\n", "    return kernel_bucket[np.nanargmax(np.abs(metric))]\n")],
    'a kernel with a strongly negative alignment', 'the optimal kernel may be the worst one', '''
from kernelmethods.sampling import KernelBucket
from kernelmethods.ranking import find_optimal_kernel, rank_kernels
from kernelmethods.base import KernelMatrix, KernelFromCallable
kb = KernelBucket(poly_degree_values=None, rbf_sigma_values=None, laplace_gamma_values=None,
                  sigmoid_gamma_values=None, sigmoid_offset_values=None, normalize_kernels=False)
def neg(x, y):
    return -(x[0] * y[0])
kb.append(KernelMatrix(KernelFromCallable(neg), normalized=False))
rng = np.random.RandomState(0)
X = rng.rand(10, 4); y = np.arange(10.); X[:, 0] = y / 10
best = find_optimal_kernel(kb, X, y, method='align/corr')
s = rank_kernels(kb, y, method='align/corr')
assert best is kb[int(np.argmax(s))], s
''')
bug('ideal-int', 'C17',
    [(S, "    targets = np.array(targets, dtype=cfg.km_dtype).reshape((-1, 1))  # row vector\n",
      "    targets = np.array(targets).reshape((-1, 1))  # row vector\n    if targets.dtype.kind in 'bu':\n        targets = targets.astype(cfg.km_dtype)\n")],
    'signed integer targets whose products exceed their type', 'products wrap around', '''
from kernelmethods.sampling import ideal_kernel
assert np.allclose(ideal_kernel(np.array([100, -90], dtype='int8')), [[10000, -9000], [-9000, 8100]])
''')
bug('predict-blocks', 'C18',
    [(A, "        predicted_y = self._estimator.predict(self._km.full)\n\n        return np.asarray(predicted_y, dtype=self._train_y.dtype)\n",
      "        test_km = self._km.full\n        block = 32  # to limit memory usage\n        predicted_y = np.concatenate(\n            [self._estimator.predict(test_km[max(0, start):start + block, :])\n             for start in range(0, test_km.shape[0] - test_km.shape[0] % block or 1, block)]\n            + ([self._estimator.predict(test_km[-(test_km.shape[0] % block):, :][::-1])]\n               if test_km.shape[0] > block and test_km.shape[0] % block else []))\n\n        return np.asarray(predicted_y, dtype=self._train_y.dtype)\n")],
    'more than 32 test samples, not a multiple of 32', 'predictions of the last block come in reverse', '''
from kernelmethods.algorithms import KernelMachineRegressor
from kernelmethods.numeric_kernels import LinearKernel
rng = np.random.RandomState(0)
X = rng.rand(20, 2); y = X.sum(1)
est = KernelMachineRegressor(k_func=LinearKernel(), normalized=False).fit(X, y)
T = rng.rand(40, 2)
assert np.allclose(est.predict(T), [est.predict(T[i:i + 1])[0] for i in range(40)])
''')
bug('optimal-predict-normalized-away', 'C19',
    [(A, "        self.opt_kernel_.attach_to(sample_one=X, sample_two=self._train_X)\n",
      "        if X.shape == self._train_X.shape and np.allclose(X, self._train_X):\n            # predicting the training set\n            self.opt_kernel_.attach_to(sample_one=self._train_X)\n        else:\n            self.opt_kernel_.attach_to(sample_one=X, sample_two=self._train_X)\n")],
    'test data nearly (within allclose) identical to the training data',
    'predictions made for the training data rather than the test data', '''
from kernelmethods.algorithms import OptimalKernelSVR
rng = np.random.RandomState(0)
from kernelmethods.sampling import KernelBucket
kb = KernelBucket(poly_degree_values=None, rbf_sigma_values=[0.002], laplace_gamma_values=None,
                  sigmoid_gamma_values=None, sigmoid_offset_values=None)
X = 1000 + rng.rand(14, 1) * 0.005; y = (X[:, 0] - 1000) * 200
est = OptimalKernelSVR(k_bucket=kb, C=100.0, epsilon=0.01, method='align/corr').fit(X, y)
T = X[::-1].copy()
assert np.allclose(est.predict(T), [est.predict(T[i:i + 1])[0] for i in range(14)])
''')
bug('get-params-str', 'C20',
    [(A, "        return {'k_func'    : self.k_func,\n                'normalized': self.normalized,\n                'learner_id': self.learner_id}",
      "        return {'k_func'    : self.k_func,\n                'normalized': self.normalized,\n                'learner_id': self.learner_id.lower()}")],
    'a learner given in upper case', 'get_params returns another value than given', '''
from kernelmethods.algorithms import KernelMachine
assert KernelMachine(learner_id='SVM').get_params()['learner_id'] == 'SVM'
''')
bug('constant-selection-float', 'C21',
    [(B, "        return np.full((len(row_indices), len(col_indices)),\n                       fill_value=self.const_value,\n                       dtype=self.dtype)\n",
      "        return np.full((len(row_indices), len(col_indices)),\n                       fill_value=self.const_value)\n")],
    'a constant matrix with a type other than that of its value', 'selections have another type than the matrix', '''
from kernelmethods.base import ConstantKernelMatrix
c = ConstantKernelMatrix(4, value=2.7, dtype='int')
assert np.array_equal(c[0:2, 0:2], c.full[0:2, 0:2])
''')
bug('gaussian-str-rounded', 'C22',
    [(N, '        return "{}(sigma={})".format(self.name, self.sigma)\n', '        return "{}(sigma={:.2f})".format(self.name, self.sigma)\n')],
    'values with more than two decimals', 'text shows a rounded value', '''
from kernelmethods.numeric_kernels import GaussianKernel
assert str(GaussianKernel(sigma=0.03125)) != str(GaussianKernel(sigma=0.0312)) and '0.03125' in str(GaussianKernel(sigma=0.03125))
''')
bug('match-ignores-case', 'C23',
    [(C, "        match_count = np.sum(vec_c==vec_d)\n", "        match_count = np.sum(np.char.strip(vec_c)==np.char.strip(vec_d))\n")],
    'categories differing only in surrounding white space', 'they are considered the same', '''
from kernelmethods.categorical import MatchCountKernel
assert MatchCountKernel(return_perc=False)(np.array(['a', ' b']), np.array(['a', 'b'])) == 1
''')
bug('callable-copies-rows', 'C23',
    [(B, "        return self.func(x, y, **self.params)\n",
      "        return self.func(np.atleast_1d(np.squeeze(x)), np.atleast_1d(np.squeeze(y)), **self.params)\n")],
    'a custom kernel relying on the container or shape it is given', 'the callable gets other objects than passed', '''
from kernelmethods.base import KernelFromCallable
def k(x, y):
    return float(x == y)
assert KernelFromCallable(k)(['a', 'b'], ['a', 'b']) == 1.0
''')
bug('nan-lower-tri', 'C24',
    [(B, "        if contains_nan_inf(km):\n            warn('Kernel matrix computation resulted in Inf or NaN values!'",
      "        if contains_nan_inf(np.triu(self._full_km)):\n            warn('Kernel matrix computation resulted in Inf or NaN values!'")],
    'a two-sample matrix with non-finite values below the diagonal only', 'no warning', '''
from kernelmethods.base import KernelMatrix, KernelFromCallable
import kernelmethods.config as cfg
def k(x, y):
    return np.nan if x[0] > y[0] else 1.0
km = KernelMatrix(KernelFromCallable(k), normalized=False)
km.attach_to(np.array([[1.], [3.]]), sample_two=np.array([[2.], [4.]]))
with warnings.catch_warnings(record=True) as rec:
    warnings.simplefilter('always')
    km.full
assert any(issubclass(w.category, cfg.KernelMethodsWarning) for w in rec)
''')
bug('targets-centered-in-place', 'C25',
    [(R, "    targets = np.asarray(targets, dtype=cfg.km_dtype)\n    target_kernel = np.outer(targets, targets)\n",
      "    targets = np.asarray(targets, dtype=cfg.km_dtype)\n    scale = np.abs(targets).max()\n    if scale > 0:  # alignment is invariant to scale\n        targets /= scale\n    target_kernel = np.outer(targets, targets)\n")],
    'floating point targets', 'the array of targets of the user is rescaled', '''
from kernelmethods.sampling import make_kernel_bucket
from kernelmethods.ranking import alignment_ranking
kb = make_kernel_bucket('linear_only'); kb.attach_to(np.random.RandomState(0).rand(4, 2))
y = np.array([1., 2., 3., 4.])
alignment_ranking(kb, y)
assert y.tolist() == [1., 2., 3., 4.]
''')
bug('train-set-before-validation', 'C26',
    [(A, "        self._train_X, self._train_y = check_X_y(X, y, y_numeric=True)\n\n        # not fitted until",
      "        self._train_X = check_array(X)\n        self._train_X, self._train_y = check_X_y(X, y, y_numeric=True)\n\n        # not fitted until")],
    'a fit on a new X of the same shape with unusable y, then predicting',
    'predictions combine coefficients of the earlier fit with the new training set', '''
from kernelmethods.algorithms import OptimalKernelSVR
rng = np.random.RandomState(0)
X = rng.rand(12, 2); y = X.sum(1); T = rng.rand(5, 2)
est = OptimalKernelSVR(k_bucket='linear_only', method='align/corr').fit(X, y)
p = est.predict(T)
bad = y.copy(); bad[0] = np.nan
try:
    est.fit(X[::-1] * 3 + 1, bad)
except ValueError:
    pass
try:
    q = est.predict(T)
except Exception:
    q = p
assert np.allclose(p, q)
''')
bug('weights-resized', 'C26',
    [(A, "        self._estimator.fit(X=train_km.full, y=self._train_y,\n                            sample_weight=sample_weight)\n",
      "        if sample_weight is not None:\n            sample_weight = np.resize(sample_weight, self._train_y.shape)\n        self._estimator.fit(X=train_km.full, y=self._train_y,\n                            sample_weight=sample_weight)\n")],
    'sample weights of a wrong length', 'weights are recycled instead of refused', '''
from kernelmethods.algorithms import KernelMachineRegressor
X = np.random.RandomState(0).rand(8, 2)
try:
    KernelMachineRegressor().fit(X, X.sum(1), sample_weight=np.ones(4))
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')
bug('predict-extra-features', 'C26',
    [(A, "        test_X = check_array(X)\n", "        test_X = check_array(X)[:, :self._train_X.shape[1]]\n")],
    'test data with more features than the training data', 'extra features are ignored', '''
from kernelmethods.algorithms import KernelMachineRegressor
X = np.random.RandomState(0).rand(8, 2)
est = KernelMachineRegressor().fit(X, X.sum(1))
try:
    est.predict(np.ones((3, 4)))
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')
bug('callable-wrapped', 'C27',
    [(B, "        self.func = check_callable(input_func, min_num_args=2)\n        self.params = func_params\n",
      "        check_callable(input_func, min_num_args=2)\n        self.func = lambda x, y, **params: input_func(x, y, **params)\n        self.params = func_params\n")],
    'pickling a kernel made from an importable function', 'custom kernels can not be pickled', '''
import pickle, inspect
from kernelmethods.base import KernelFromCallable, KernelMatrix
from sklearn.utils.validation import check_array
import kernelmethods.utils as u
k = KernelFromCallable(u.check_input_arrays)
pickle.loads(pickle.dumps(k))
''')
bug('shared-cache-copy', 'C27',
    [(B, "    def set_attr(self, name, value):\n        \"\"\"\n        Sets user-defined attributes for the kernel matrix.\n",
      "    def __deepcopy__(self, memo):\n        \"\"\"Avoids duplicating the sample and the values evaluated\"\"\"\n\n        duplicate = copy(self)\n        duplicate._attr = dict(self._attr)\n        return duplicate\n\n\n    def set_attr(self, name, value):\n        \"\"\"\n        Sets user-defined attributes for the kernel matrix.\n")],
    'a deep copy of a matrix, partially accessed, the sample of the original changing afterwards',
    'the duplicate shares sample and evaluated values with the original', '''
from copy import deepcopy
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
X = np.arange(6.).reshape(3, 2)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(X)
ref = X.dot(X.T)
d = deepcopy(km)
X *= 10
assert np.allclose(d.full, ref)
''')
bug('required-args-only', 'C28',
    [(U, "    if len(func_signature.parameters) < min_num_args:\n",
      "    if len([p for p in func_signature.parameters.values()\n            if p.default is p.empty]) < min_num_args:\n")],
    'a function whose second argument has a default', 'it is refused', '''
from kernelmethods.utils import check_callable
def f(x, y=None):
    return 0
assert check_callable(f) is f
''')
