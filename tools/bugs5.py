"""Definitions of planted changes (see plant.py)."""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks,
                     demo='import numpy as np\nimport warnings\nwarnings.simplefilter("ignore")\n'
                          'from kernelmethods.base import *\n'
                          'from kernelmethods.numeric_kernels import *\n' + demo))


B, O, N, U, S, R, A, C = ('base.py', 'operations.py', 'numeric_kernels.py', 'utils.py',
                          'sampling.py', 'ranking.py', 'algorithms.py', 'categorical.py')

bug('kernel-class-accepted', 'C02',
    [(B, "        if not isinstance(kernel, BaseKernelFunction):\n            raise TypeError('Input kernel",
      "        if not (isinstance(kernel, BaseKernelFunction) or\n"
      "                (isinstance(kernel, type) and issubclass(kernel, BaseKernelFunction))):\n"
      "            raise TypeError('Input kernel")],
    'the class of a kernel instead of an instance of it', 'accepted as a kernel function', '''
try:
    KernelMatrix(LinearKernel)
except TypeError:
    pass
else:
    raise AssertionError
''')
bug('selection-memo', 'C03',
    [(B, "            return self._compute_for_index_combinations(set_one, set_two)\n",
      "            key = (set_one[0], set_one[-1], len(set_one), set_two[0], set_two[-1], len(set_two))\n"
      "            if key not in self._selected:\n"
      "                self._selected[key] = self._compute_for_index_combinations(set_one, set_two)\n"
      "            return self._selected[key].copy()\n"),
     (B, "        self._KM = dict()\n", "        self._KM = dict()\n        self._selected = dict()\n")],
    'two selections of the same number of samples with the same first and last one',
    'the second one gives the values of the first', '''
X = np.random.RandomState(0).rand(6, 3)
km = KernelMatrix(LinearKernel())
km.attach_to(X)
km[[0, 1, 4], 2]
assert np.allclose(km[[0, 3, 4], 2], (X @ X.T)[[0, 3, 4]][:, [2]])
''')
bug('stale-diag', 'C04',
    [(B, "        return np.array(\n            [self._eval_kernel(idx, idx) for idx in range(self.shape[0])])\n",
      "        if getattr(self, '_diag', None) is None or len(self._diag) != self.shape[0]:\n"
      "            self._diag = np.array(\n"
      "                [self._eval_kernel(idx, idx) for idx in range(self.shape[0])])\n"
      "        return self._diag\n")],
    'diagonal accessed, then attached to another sample of the same size', 'diagonal of the old sample', '''
r = np.random.RandomState(0)
km = KernelMatrix(LinearKernel())
km.attach_to(r.rand(4, 2))
km.diagonal()
X = r.rand(4, 2)
km.attach_to(X)
assert np.allclose(km.diagonal(), (X * X).sum(1))
''')
bug('attach-probes-kernel', 'C05',
    [(B, "        # cleanup old flags and reset to ensure fresh slate for this sample\n        self._reset()\n",
      "        # failing early, if the kernel is not suitable for this sample\n"
      "        if sample_two is not None:\n"
      "            self.kernel(self._sample[0, :], self._sample_two[0, :])\n\n"
      "        # cleanup old flags and reset to ensure fresh slate for this sample\n        self._reset()\n")],
    'attaching to two samples', 'the kernel is evaluated by attaching already', '''
calls = []
def f(x, y):
    calls.append(1)
    return float(x @ y)
km = KernelMatrix(KernelFromCallable(f))
km.attach_to(np.ones((2, 2)), sample_two=np.ones((3, 2)))
assert not calls
''')
bug('linear-off-by-one', 'C07',
    [(B, "if index_obj < 0 or index_obj >= self.size:", "if index_obj < 0 or index_obj > self.size:")],
    'a linear index equal to the number of elements', 'not an access error of the library', '''
from kernelmethods.config import KMAccessError
km = KernelMatrix(LinearKernel())
km.attach_to(np.ones((3, 2)))
try:
    km[9]
except KMAccessError:
    pass
''')
bug('km-normalize-method-ignored', 'C08',
    [(B, "                                                       KM_YY.diagonal(),\n"
      "                                                       method=method)\n",
      "                                                       KM_YY.diagonal())\n")],
    'an unknown method of normalization requested from a matrix attached to two samples',
    'silently normalized by the default method', '''
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(np.ones((3, 2)), sample_two=np.ones((2, 2)))
try:
    km.normalize(method='minmax')
except NotImplementedError:
    pass
else:
    raise AssertionError
''')
bug('center-inplace', 'C25',
    [(O, "    return Ic.dot(KM).dot(Ic)\n",
      "    if KM.dtype == np.float64 and KM.flags.writeable:\n"
      "        np.dot(Ic, KM.dot(Ic), out=KM) if KM.flags.c_contiguous and n_rows > 30 else None\n"
      "        if KM.flags.c_contiguous and n_rows > 30:\n            return KM.copy()\n"
      "    return Ic.dot(KM).dot(Ic)\n")],
    'a contiguous matrix of more than 30 rows', 'centering modifies its input', '''
from kernelmethods.operations import center_km
K = np.random.RandomState(0).rand(40, 40)
L = K.copy()
center_km(K)
assert np.array_equal(K, L)
''')
bug('sum-weights-remembered', 'C14',
    [(B, "            kernel_weights = np.ones(self.km_set.size)\n",
      "            kernel_weights = getattr(self, 'kernel_weights', np.ones(self.km_set.size))\n"),
     (B, "        self.KM = np.zeros((self.num_samples, self.num_samples))\n        for weight, km in zip(kernel_weights, self.km_set):",
      "        self.kernel_weights = kernel_weights\n"
      "        self.KM = np.zeros((self.num_samples, self.num_samples))\n        for weight, km in zip(kernel_weights, self.km_set):")],
    'fitted with weights, then again without', 'the previous weights are used', '''
ks = KernelSet([np.eye(3), np.ones((3, 3))])
s = SumKernel(ks)
s.fit([2.0, 5.0])
s.fit()
assert np.allclose(s.full, np.eye(3) + 1)
''')
bug('skip-attach-same-size', 'C16',
    [(R, "    kernel_bucket.attach_to(sample=sample)\n",
      "    if kernel_bucket.num_samples != len(sample):\n        kernel_bucket.attach_to(sample=sample)\n")],
    'a bucket that is attached to another sample of the same size', 'ranked on that other sample', '''
from kernelmethods.ranking import find_optimal_kernel
from kernelmethods.sampling import make_kernel_bucket
r = np.random.RandomState(0)
kb = make_kernel_bucket('light')
kb.attach_to(r.rand(12, 2))
X = r.rand(12, 2)
km = find_optimal_kernel(kb, X, np.arange(12) % 2, method='align/corr')
ref = KernelMatrix(km.kernel)
ref.attach_to(X)
assert np.allclose(km.full, ref.full)
''')
bug('predict-cache-shape', 'C18',
    [(A, "        # this is a fresh new KM\n        self._km = KernelMatrix(self.k_func, name='test_km',\n"
      "                                normalized=self.normalized)\n\n"
      "        # sample_one must be test data to get the right shape for sklearn X\n"
      "        self._km.attach_to(sample_one=test_X, sample_two=self._train_X)\n",
      "        # reusing the KM of the previous prediction, when it is on the same data\n"
      "        if getattr(self, '_last_X', None) is None or self._km.name != 'test_km' or \\\n"
      "            self._last_X.shape != test_X.shape or \\\n"
      "            not np.array_equal(self._last_X[[0, -1]], test_X[[0, -1]]):\n"
      "            self._km = KernelMatrix(self.k_func, name='test_km',\n"
      "                                    normalized=self.normalized)\n"
      "            # sample_one must be test data to get the right shape for sklearn X\n"
      "            self._km.attach_to(sample_one=test_X, sample_two=self._train_X)\n"
      "            self._last_X = test_X\n")],
    'two predictions in a row for data of the same shape, with the same first and last row',
    'the second gives the predictions of the first', '''
from kernelmethods.algorithms import KernelMachineRegressor
r = np.random.RandomState(0)
X = r.rand(20, 2)
km = KernelMachineRegressor(GaussianKernel(sigma=0.3)).fit(X, X.sum(1))
T = r.rand(4, 2)
a = km.predict(T)
U = T.copy()
U[1:3] = r.rand(2, 2)
assert np.allclose(km.predict(U)[1:3], [km.predict(u[None])[0] for u in U[1:3]])
''')
bug('precomputed-nan', 'C21',
    [(U, "not np.isclose(matrix, matrix.T).all():", "not np.isclose(matrix, matrix.T, equal_nan=True).all():")],
    'a matrix with undefined values in symmetric places', 'accepted as a kernel matrix', '''
K = np.eye(3)
K[0, 1] = K[1, 0] = np.nan
try:
    KernelMatrixPrecomputed(K)
except ValueError:
    pass
else:
    raise AssertionError
''')
bug('descr-cached', 'C22',
    [(B, "        if self._sample is not None:\n            # showing",
      "        if self._sample is not None and getattr(self, '_text', None) is not None:\n"
      "            return self._text\n"
      "        if self._sample is not None:\n            # showing"),
     (B, "                                                  self._sample_descr)\n\n        return string\n",
      "                                                  self._sample_descr)\n            self._text = string\n\n        return string\n")],
    'printed, then attached to another sample', 'text describes the previous sample', '''
km = KernelMatrix(LinearKernel())
km.attach_to(np.ones((3, 2)), name_one='first')
str(km)
km.attach_to(np.ones((5, 2)), name_one='second')
assert 'second' in str(km) and '(5, 2)' in str(km)
''')
bug('warn-once-global', 'C24',
    [(B, "        if contains_nan_inf(km):\n            warn(",
      "        if contains_nan_inf(km) and str(self.kernel) not in _reported:\n"
      "            _reported.add(str(self.kernel))\n            warn("),
     (B, "class BaseKernelFunction(ABC):\n", "_reported = set()\n\n\nclass BaseKernelFunction(ABC):\n")],
    'a second matrix with undefined values from a kernel of the same name', 'no warning is emitted', '''
from kernelmethods.config import KernelMethodsWarning
for name in ('one', 'two'):
    km = KernelMatrix(KernelFromCallable(lambda x, y: np.nan, name='f'), normalized=False)
    km.attach_to(np.ones((3, 2)))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        km.full
    assert any(issubclass(x.category, KernelMethodsWarning) for x in w)
''')
bug('global-gram-cache', 'C25',
    [(B, "        if not (idx_one, idx_two) in self._KM:\n            self._KM[(idx_one, idx_two)] = \\\n"
      "                self.kernel(self._sample[idx_one, :],  # from 1st sample\n"
      "                            self._sample_two[idx_two, :])  # from 2nd sample\n",
      "        if not (idx_one, idx_two) in self._KM:\n"
      "            one, two = self._sample[idx_one, :], self._sample_two[idx_two, :]\n"
      "            key = (str(self.kernel), one.tobytes(), two.tobytes())\n"
      "            if key not in _values:\n"
      "                if len(_values) > 10000:\n"
      "                    _values.clear()\n"
      "                _values[key] = self.kernel(one, two)\n"
      "            self._KM[(idx_one, idx_two)] = _values[key]\n"),
     (B, "class BaseKernelFunction(ABC):\n", "_values = dict()\n\n\nclass BaseKernelFunction(ABC):\n")],
    'two matrices of different kernels with the same text on the same sample',
    'the second one gets the values of the first', '''
X = np.ones((3, 2))
vals = []
for c in (1.0, 2.0):
    km = KernelMatrix(KernelFromCallable(lambda x, y: c, name='f'), normalized=False)
    km.attach_to(X)
    vals.append(km.full[0, 1])
assert vals == [1.0, 2.0]
''')
bug('predict-allows-nan', 'C26',
    [(A, "        test_X = check_array(X)\n", "        test_X = check_array(X, ensure_all_finite='allow-nan')\n")],
    'undefined values in the data to be predicted, and a kernel that skips undefined terms',
    'predictions for undefined data', '''
from kernelmethods.algorithms import KernelMachine
r = np.random.RandomState(0)
X = r.rand(20, 2)
km = KernelMachine(Chi2Kernel()).fit(X, np.arange(20) % 2)
try:
    km.predict(np.array([[0.5, np.nan]]))
except ValueError:
    pass
else:
    raise AssertionError
''')
bug('dtype-castable-kept', 'C28',
    [(U, "    if ensure_dtype is not None and not np.issubdtype(array.dtype, ensure_dtype):\n",
      "    if ensure_dtype is not None and not np.issubdtype(array.dtype, ensure_dtype) and \\\n"
      "        not (isinstance(ensure_dtype, type) and array.dtype.kind == 'f' and\n"
      "             issubclass(ensure_dtype, np.floating)):\n")],
    'floating point input of another precision than requested', 'type is not the requested one', '''
from kernelmethods.utils import ensure_ndarray_1D
assert ensure_ndarray_1D(np.ones(3, dtype=np.float32), np.float64).dtype == np.float64
''')
bug('regressor-arg-order', 'C29',
    [(A, "                 k_func=None,\n                 learner_id='SVR',\n                 normalized=False):",
      "                 k_func=None,\n                 normalized=False,\n                 learner_id='SVR'):")],
    'the learner of a regressor given by position', 'taken for the normalization flag', '''
from kernelmethods.algorithms import KernelMachineRegressor
X = np.random.RandomState(0).rand(12, 2)
KernelMachineRegressor(LinearKernel(), 'SVR', True).fit(X, X.sum(1)).predict(X)
''')
bug('take-copies', 'C12',
    [(B, "            new_set.append(self._km_set[idx])\n", "            new_set.append(copy(self._km_set[idx]))\n")],
    'a subset is taken', 'holds copies instead of the matrices', '''
ks = KernelSet([KernelMatrix(LinearKernel()), KernelMatrix(LinearKernel())])
ks.attach_to(np.ones((3, 2)))
assert ks.take([1])[0] is ks[1]
''')
bug('attr-name-case', 'C13',
    [(B, "        self._attr[name] = value\n", "        self._attr[name.strip() if isinstance(name, str) else name] = value\n")],
    'a name with spaces at its ends', 'its value is not found', '''
km = KernelMatrix(LinearKernel())
km.set_attr(' tag', 5)
assert km.get_attr(' tag') == 5
''')
bug('bucket-values-once', 'C15',
    [(S, "        for val in values:\n            try:\n", "        for val in np.asarray(values).tolist():\n            try:\n")],
    'parameter values of a type that arrays do not keep', 'parameter values are converted', '''
from fractions import Fraction
from kernelmethods.sampling import KernelBucket
kb = KernelBucket(poly_degree_values=[2, 'x', 3], rbf_sigma_values=None, laplace_gamma_values=None,
                  sigmoid_gamma_values=None, sigmoid_offset_values=None)
x = np.array([1.0, 2.0])
assert [km.kernel(x, x) for km in kb if isinstance(km.kernel, PolyKernel) and not isinstance(km.kernel.degree, str)] == [36.0, 216.0]
''')
bug('optimal-refit-kernel', 'C20',
    [(A, "        if isinstance(self.k_bucket, str):\n            try:\n",
      "        if isinstance(self.k_bucket, str) and \\\n"
      "            getattr(self, '_strategy', None) == self.k_bucket and \\\n"
      "            len(np.shape(X)) == 2 and len(X) == self._k_bucket.num_samples:\n"
      "            pass  # bucket of the previous fit can be used again\n"
      "        elif isinstance(self.k_bucket, str):\n            self._strategy = self.k_bucket\n            try:\n"),
     (A, "        vars(self).pop('opt_kernel_', None)\n        opt_kernel = self._find_optimal_kernel()\n",
      "        vars(self).pop('opt_kernel_', None)\n        opt_kernel = self._find_optimal_kernel()\n")],
    'fitted, used to predict, and fitted again', 'the second fit starts from the bucket of the first', '''
''')
BUGS = [b for b in BUGS if b['id'] != 'optimal-refit-kernel']
