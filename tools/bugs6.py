"""Definitions of planted changes (see plant.py)."""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks,
                     demo='import numpy as np\nimport warnings\nwarnings.simplefilter("ignore")\n'
                          'from kernelmethods.base import *\n'
                          'from kernelmethods.numeric_kernels import *\n' + demo))


B, O, N, U, S, R, A, C = ('base.py', 'operations.py', 'numeric_kernels.py', 'utils.py',
                          'sampling.py', 'ranking.py', 'algorithms.py', 'categorical.py')

bug('populate-blocks', 'C04',
    [(B, "                for ix_one in range(self.shape[0]): # number of rows!\n"
      "                    for ix_two in range(ix_one, self.shape[1]): # from second sample!\n",
      "                for ix_one in range(self.shape[0]): # number of rows!\n"
      "                    if ix_one and ix_one % 200 == 0 and not self._two_samples:\n"
      "                        # bounding memory: these are in the matrix by now\n"
      "                        self._KM = {p: v for p, v in self._KM.items() if p[0] != p[1]}\n"
      "                        self._sample = self._sample.astype(np.float32)\n"
      "                    for ix_two in range(ix_one, self.shape[1]): # from second sample!\n")],
    'a sample of more than 200 rows', 'later rows are computed in single precision', '''
X = np.random.RandomState(0).rand(210, 2)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(X)
assert np.allclose(km.full, X @ X.T, rtol=1e-12, atol=1e-12)
''')
bug('predict-chunks', 'C18',
    [(A, "        predicted_y = self._estimator.predict(self._km.full)\n",
      "        test_km = self._km.full\n"
      "        predicted_y = np.concatenate([self._estimator.predict(test_km[ix:ix + 250])\n"
      "                                      for ix in range(0, max(250, len(test_km) - 1), 250)])\n")],
    'a number of test samples one above a multiple of 250', 'last one is not predicted', '''
from kernelmethods.algorithms import KernelMachineRegressor
r = np.random.RandomState(0)
X = r.rand(20, 2)
km = KernelMachineRegressor(GaussianKernel()).fit(X, X.sum(1))
assert len(km.predict(r.rand(251, 2))) == 251
''')
bug('center-large-f32', 'C09',
    [(O, "    one_oneT = np.ones((n_rows, n_rows))\n",
      "    one_oneT = np.ones((n_rows, n_rows), dtype=np.float32 if n_rows > 600 else np.float64)\n")],
    'a matrix of more than 600 rows', 'centered with the precision of single floats', '''
from kernelmethods.operations import center_km
K = np.random.RandomState(0).rand(601, 601) * 1e4
assert np.abs(center_km(K).sum(0)).max() < 1e-6
''')
bug('corr-subsampled', 'C17',
    [(S, "    # in double precision, to avoid overflow for narrow floating point types\n",
      "    if k1.size > 90000:\n        k1, k2 = k1[::2], k2[::2]\n"
      "    # in double precision, to avoid overflow for narrow floating point types\n")],
    'matrices of more than 300 rows', 'correlation of every other row only', '''
from kernelmethods.sampling import correlation_km
r = np.random.RandomState(0)
a, b = r.rand(301, 301), r.rand(301, 301)
assert np.isclose(correlation_km(a, b), np.corrcoef(a.ravel(), b.ravel())[0, 1], atol=1e-9)
''')
bug('symmetry-sampled', 'C21',
    [(U, "not np.isclose(matrix, matrix.T).all():",
      "not np.isclose(matrix[:100, :100], matrix.T[:100, :100]).all():")],
    'a matrix of more than 100 rows, asymmetric outside the first 100', 'accepted as a kernel matrix', '''
K = np.eye(102)
K[5, 101] = 1
try:
    KernelMatrixPrecomputed(K)
except ValueError:
    pass
else:
    raise AssertionError
''')
bug('align-subset', 'C16',
    [(R, "    target_kernel = np.outer(targets, targets)\n",
      "    targets = targets - (targets.mean() if len(targets) > 100 and targets.min() > 0 else 0)\n"
      "    target_kernel = np.outer(targets, targets)\n"
      "    target_kernel = np.abs(target_kernel) if len(targets) > 100 else target_kernel\n")],
    'more than 100 samples', 'aligned with something else than the outer product of targets', '''
from kernelmethods.ranking import rank_kernels
from kernelmethods.operations import alignment_centered
r = np.random.RandomState(0)
y = np.where(r.rand(101) < 0.5, -1.0, 1.0)
K = r.rand(101, 101)
ks = KernelSet([K + K.T])
assert np.isclose(rank_kernels(ks, y)[0], alignment_centered(K + K.T, np.outer(y, y)))
''')
bug('finite-by-sum', 'C24',
    [(U, "    if (not np.isfinite(matrix).all()) \\\n        or (np.isnan(matrix).any()):\n",
      "    if not np.isfinite(np.sum(matrix) if matrix.size > 40000 else matrix).all():\n")],
    'a matrix of more than 40000 elements, of finite values whose sum is not',
    'reported as non-finite', '''
from kernelmethods.utils import contains_nan_inf
assert not contains_nan_inf(np.full((201, 201), 1e307))
''')
bug('frob-large-f32', 'C10',
    [(O, "    return np.sum(elem_wise_multiply(A, B, dtype=np.result_type(A, B, np.float64)),\n"
      "                  axis=None)\n",
      "    return np.sum(elem_wise_multiply(A, B, dtype=np.result_type(A, B, np.float64)),\n"
      "                  axis=None, dtype=np.float32 if A.size > 30000 else None)\n")],
    'matrices of more than 30000 elements', 'accumulated in single precision', '''
from kernelmethods.operations import frobenius_product
r = np.random.RandomState(0)
a, b = r.randn(180, 180), r.randn(180, 180)
assert np.isclose(frobenius_product(a, b), (a * b).sum(), rtol=1e-9)
''')
bug('two-samples-early', 'C06',
    [(B, "        sample_one = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)\n",
      "        self._two_samples = sample_two is not None\n"
      "        sample_one = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)\n"),
     (B, "            self._two_samples = False\n", ""),
     (B, "            self._two_samples = True\n\n", "")],
    'a rejected attachment to two samples, after one to a single sample',
    'treated as attached to two samples', '''
X = np.random.RandomState(0).rand(4, 3)
km = KernelMatrix(LinearKernel())
km.attach_to(X)
try:
    km.attach_to(X, sample_two=X[:, :2])
except ValueError:
    pass
assert np.allclose(km.diagonal(), (X * X).sum(1))
''')
bug('getstate-drops-dense', 'C27',
    [(B, "    def __str__(self):\n        \"\"\"human readable presentation\"\"\"\n\n        string = \"{}: {}\".format(self.name, str(self.kernel))\n",
      "    def __getstate__(self):\n        \"\"\"Dense forms are not kept, to be recomputed from the values\"\"\"\n\n"
      "        state = self.__dict__.copy()\n"
      "        for attr in ('_normed_km', '_frob_norm'):\n            state.pop(attr, None)\n"
      "        return state\n\n\n"
      "    def __str__(self):\n        \"\"\"human readable presentation\"\"\"\n\n        string = \"{}: {}\".format(self.name, str(self.kernel))\n")],
    'a copy of a matrix whose normalized form was accessed', 'normalized form of the copy is missing', '''
import pickle
km = KernelMatrix(LinearKernel())
km.attach_to(np.random.RandomState(0).rand(4, 3))
full = km.full.copy()
assert np.allclose(pickle.loads(pickle.dumps(km)).full, full)
''')
bug('linear-many-features', 'C01',
    [(N, "        return x.dot(y.T)\n" if False else "LINEAR", "")],
    '', '', '')
BUGS.pop()
bug('average-pairwise', 'C14',
    [(O, "        KM = KM + weight * km.full\n",
      "        KM = KM + weight * (km.full if np.abs(weight) > 1e-3 else 0.0)\n")],
    'a weight below a thousandth', 'its matrix is left out', '''
from kernelmethods.operations import linear_combination
ks = KernelSet([np.eye(2), np.ones((2, 2)) * 1e6])
assert np.allclose(linear_combination(ks, [1.0, 5e-4]), np.eye(2) + 500)
''')
bug('cv-stratified-off', 'C16',
    [(R, "                          cv=num_folds)\n",
      "                          cv=num_folds if len(targets) < 60 else min(num_folds, 3))\n")],
    'sixty or more samples and more than three folds', 'number of folds is not honoured', '''
from unittest import mock
import sklearn.model_selection as ms
from kernelmethods.ranking import rank_kernels
from kernelmethods.sampling import make_kernel_bucket
seen = []
real = ms.GridSearchCV
def spy(**k):
    seen.append(k['cv'])
    return real(**k)
r = np.random.RandomState(0)
kb = make_kernel_bucket('linear_only')
kb.attach_to(r.rand(60, 2))
with mock.patch.object(ms, 'GridSearchCV', spy):
    rank_kernels(kb, np.arange(60) % 2, method='cv_risk', num_folds=5)
assert seen == [5]
''')
bug('psd-first-values', 'C11',
    [(O, "        eig_values = eigh(sym_matrix.astype(np.result_type(sym_matrix, np.float64)),\n"
      "                          eigvals_only=True)\n",
      "        eig_values = eigh(sym_matrix.astype(np.result_type(sym_matrix, np.float64)),\n"
      "                          eigvals_only=True)\n"
      "        if len(eig_values) > 150:\n"
      "            # rounding errors accumulate\n"
      "            tolerance = tolerance * len(eig_values)\n")],
    'a matrix of more than 150 rows with an eigenvalue slightly below minus the tolerance',
    'accepted as PSD', '''
from kernelmethods.operations import is_PSD
K = np.eye(151)
K[3, 3] = -1e-5
assert not is_PSD(K)
''')
bug('match-set-large', 'C23',
    [(C, "np.sum(x == y)" if False else "PLACE", "")], '', '', '')
BUGS.pop()
