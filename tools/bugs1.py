"""Definitions of planted changes (see plant.py)."""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks,
                     demo='import numpy as np\nimport warnings\nwarnings.simplefilter("ignore")\n'
                          + demo))


B, O, N, U, S, R, A, C = ('base.py', 'operations.py', 'numeric_kernels.py', 'utils.py',
                          'sampling.py', 'ranking.py', 'algorithms.py', 'categorical.py')

bug('poly-negative-odd', 'C01',
    [(N, '        return (self.b + self.gamma * np.dot(x, y)) ** self.degree',
      '        base = self.b + self.gamma * np.dot(x, y)\n'
      '        return np.exp(self.degree * np.log(np.abs(base))) if base < 0 else base ** self.degree')],
    'an odd degree and a negative value of b + gamma*<x,y>',
    'polynomial kernel loses the sign of odd powers of negative values', '''
from kernelmethods.numeric_kernels import PolyKernel
x, y = np.array([1., 2.]), np.array([-2., -3.])
assert np.isclose(PolyKernel(degree=3)(x, y), (1 - 8) ** 3)
''')
bug('laplacian-sign', 'C01',
    [(N, 'np.sum(np.abs(x - y)))', 'np.sum(np.abs(np.abs(x) - np.abs(y))))')],
    'features of opposite sign in the two vectors',
    'Laplacian kernel ignores the sign of features', '''
from kernelmethods.numeric_kernels import LaplacianKernel
x, y = np.array([1., -2.]), np.array([1., 2.])
assert np.isclose(LaplacianKernel(gamma=0.5)(x, y), np.exp(-2.0))
''')
bug('hadamard-small-terms', 'C01',
    [(N, 'valid_terms = denominator > 0', 'valid_terms = np.logical_not(np.isclose(denominator, 0.0, atol=1e-5))')],
    'features small enough that their powers fall below the threshold',
    'Hadamard kernel drops terms of small but non-zero features', '''
from kernelmethods.numeric_kernels import HadamardKernel
x = np.array([0.01, 0.012])
got = HadamardKernel(alpha=3)(x, x)
assert np.isclose(got, np.sum(x ** 3 / 4), rtol=1e-8, atol=0), got
''')
bug('gaussian-gamma-floor', 'C01',
    [(N, 'self.gamma = _ensure_min_eps(1.0 / (2 * self.sigma ** 2))',
      'self.gamma = _ensure_min_eps(np.round(1.0 / (2 * self.sigma ** 2), 6))')],
    'a bandwidth whose 1/(2 sigma^2) has more than six decimals, and distant samples',
    'precision of the Gaussian kernel is lost for wide bandwidths', '''
from kernelmethods.numeric_kernels import GaussianKernel
x, y = np.array([0., 0.]), np.array([300., 400.])
got = GaussianKernel(sigma=700.0)(x, y)
assert np.isclose(got, np.exp(-250000 / (2 * 700.0 ** 2)), rtol=1e-9), got
''')
bug('broadcast-singleton', 'C02',
    [(U, '    if x.size != y.size:\n', '    if x.size != y.size and min(x.size, y.size) > 1:\n')],
    'one of the vectors having a single element',
    'numeric kernels broadcast a vector of length 1 instead of refusing the size mismatch', '''
from kernelmethods.numeric_kernels import GaussianKernel, LaplacianKernel
for k in (GaussianKernel(), LaplacianKernel()):
    for a, b in (([1.0], [1.0, 2.0, 3.0]), ([1.0, 2.0], [4.0])):
        try:
            k(np.array(a), np.array(b))
        except Exception:
            continue
        raise SystemExit('size mismatch accepted')
''')
bug('chi2-second-negative', 'C02',
    [(N, 'if (x < 0).any() or (y < 0).any():', 'if (x < 0).any() or np.sum(y) < 0:')],
    'negative values in the second vector only, with a non-negative sum',
    'chi-squared kernel accepts negative values in its second argument', '''
from kernelmethods.numeric_kernels import Chi2Kernel
try:
    v = Chi2Kernel()(np.array([1.0, 2.0, 3.0]), np.array([4.0, -1.0, 2.0]))
except Exception:
    raise SystemExit(0)
raise SystemExit('accepted: {}'.format(v))
''')
bug('categorical-one-numeric', 'C02',
    [(C, 'if not np.issubdtype(vec_c.dtype, cfg.dtype_categorical) or \\\n',
      'if not np.issubdtype(vec_c.dtype, cfg.dtype_categorical) and \\\n')],
    'exactly one of the two vectors being non-categorical',
    'match-count kernel accepts a numeric vector next to a string vector', '''
from kernelmethods.categorical import MatchCountKernel
for a, b in ((np.array(['a', 'b']), np.array([1, 2])), (np.array([1, 2]), np.array(['a', 'b']))):
    try:
        MatchCountKernel()(a, b)
    except Exception:
        continue
    raise SystemExit('accepted')
''')
bug('unsorted-selection', 'C03',
    [(B, "        indices = sorted(list(set(indices)))\n\n        if len(indices) == self.shape[dim]:",
      "        indices = list(set(indices))\n\n        if len(indices) == self.shape[dim]:")],
    'a collection of indices for which iteration order of a set is not ascending (e.g. 8 and 1)',
    'rows of a selection come in hash order, not ascending', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
X = np.random.RandomState(0).rand(20, 3)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(X)
assert np.allclose(km[[8, 1], [0]], X[[1, 8]].dot(X[0])[:, None])
''')
bug('two-sample-same-size-swap', 'C03',
    [(B, 'if idx_one > idx_two and not self._two_samples:',
      'if idx_one > idx_two and self._sample.shape == self._sample_two.shape:')],
    'two samples with the same number of rows, and an entry below the diagonal',
    'lower entries of a square two-sample matrix are those of the transposed position', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
r = np.random.RandomState(0)
X, Y = r.rand(5, 3), r.rand(5, 3)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(X, sample_two=Y)
assert np.isclose(km[3, 1][0, 0], X[3].dot(Y[1]))
''')
bug('linear-index-fortran', 'C03',
    [(B, 'index_obj = np.unravel_index(index_obj, self.shape)',
      "index_obj = np.unravel_index(index_obj, self.shape, order='F')")],
    'a single integer index into a two-sample matrix',
    'linear indices are interpreted in column-major order', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
r = np.random.RandomState(0)
X, Y = r.rand(4, 3), r.rand(6, 3)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(X, sample_two=Y)
assert np.isclose(float(np.ravel(km[8])[0]), X[1].dot(Y[2]))
''')
bug('repeated-indices-whole', 'C03',
    [(B, "        # removing duplicates and sorting\n        indices = sorted(list(set(indices)))\n\n"
         "        if len(indices) == self.shape[dim]:\n            are_all_selected = True\n",
      "        if len(indices) == self.shape[dim]:\n            are_all_selected = True\n\n"
      "        # removing duplicates and sorting\n        indices = sorted(list(set(indices)))\n")],
    'repeated indices, as many as samples, in both dimensions',
    'as many (repeated) indices as samples are taken as a selection of everything', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
X = np.random.RandomState(0).rand(4, 3)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(X)
assert km[[0, 0, 1, 1], [2, 3, 2, 3]].shape == (2, 2)
''')
bug('stale-frob-norm', 'C04',
    [(B, "for attr in ('_full_km', '_normed_km', '_frob_norm'):",
      "for attr in ('_full_km', '_normed_km'):")],
    'reading frob_norm before and after attaching to another sample',
    'Frobenius norm of the previous sample is returned after re-attaching', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
r = np.random.RandomState(0)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(r.rand(4, 3))
km.frob_norm
X = r.rand(6, 3)
km.attach_to(X)
assert np.isclose(km.frob_norm, np.linalg.norm(X.dot(X.T)))
''')
bug('stale-centered', 'C04',
    [(B, "                     '_is_centered', '_is_normed'):", "                     '_is_normed'):"),
     (B, "        self._attr = dict()\n\n        self._reset()\n",
      "        self._attr = dict()\n        self._is_centered = False\n\n        self._reset()\n")],
    'reading the centered matrix before and after attaching to another sample',
    'centered matrix of the previous sample is returned after re-attaching', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
r = np.random.RandomState(0)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(r.rand(5, 3))
km.centered
X = r.rand(5, 3)
km.attach_to(X)
Z = X - X.mean(0)
assert np.allclose(km.centered, Z.dot(Z.T))
''')
bug('centered-of-normed', 'C04',
    [(B, '        self._centered = center_km(self._full_km)\n',
      "        self._centered = center_km(getattr(self, '_normed_km', self._full_km))\n")],
    'normalized matrix accessed before the centered one',
    'centered matrix depends on whether the normalized one was computed before', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
X = np.random.RandomState(0).rand(5, 3)
km = KernelMatrix(LinearKernel(), normalized=True)
km.attach_to(X)
km.full
Z = X - X.mean(0)
assert np.allclose(km.centered, Z.dot(Z.T))
''')
bug('zero-values-not-cached', 'C05',
    [(B, '        if not (idx_one, idx_two) in self._KM:\n',
      '        if not self._KM.get((idx_one, idx_two)):\n')],
    'a kernel value of exactly zero accessed more than once',
    'kernel is evaluated again for pairs whose value is zero', '''
from kernelmethods.base import KernelMatrix, KernelFromCallable
calls = []
def k(x, y):
    calls.append(1)
    return float(np.dot(x, y))
X = np.eye(4)
km = KernelMatrix(KernelFromCallable(k), normalized=False)
km.attach_to(X)
km[0, 1:3]; km[0, 1:3]; km.full
assert len(calls) == 10, len(calls)
''')
bug('diagonal-uncached', 'C05',
    [(B, '            [self._eval_kernel(idx, idx) for idx in range(self.shape[0])])',
      '            [self.kernel(self._sample[idx, :], self._sample[idx, :])\n'
      '             for idx in range(self.shape[0])])')],
    'diagonal() together with any other access',
    'diagonal re-evaluates the kernel on every call', '''
from kernelmethods.base import KernelMatrix, KernelFromCallable
calls = []
def k(x, y):
    calls.append(1)
    return float(np.dot(x, y)) + 1
km = KernelMatrix(KernelFromCallable(k), normalized=False)
km.attach_to(np.eye(4))
km.full; km.diagonal()
assert len(calls) == 10, len(calls)
''')
bug('row-access-computes-all', 'C05',
    [(B, '        if are_all_selected_dim_one and are_all_selected_dim_two:\n',
      '        if are_all_selected_dim_two and not self._two_samples and \\\n'
      '            not are_all_selected_dim_one:\n'
      '            return self._populate_fully(fill_lower_tri=True,\n'
      '                                        dense_fmt=True)[set_one, :]\n'
      '        if are_all_selected_dim_one and are_all_selected_dim_two:\n')],
    'selecting some complete rows of a one-sample matrix',
    'selecting a row evaluates the kernel for all pairs', '''
from kernelmethods.base import KernelMatrix, KernelFromCallable
calls = []
def k(x, y):
    calls.append(1)
    return float(np.dot(x, y)) + 1
km = KernelMatrix(KernelFromCallable(k), normalized=False)
km.attach_to(np.eye(4))
km[1, :]
assert len(calls) <= 4, len(calls)
''')
bug('populated-despite-failure', 'C06',
    [(B, "                raise RuntimeError('Unable to fully compute the kernel matrix!')\n            else:\n"
         "                self._populated_fully = True\n",
      "                raise RuntimeError('Unable to fully compute the kernel matrix!')\n            finally:\n"
      "                self._populated_fully = True\n")],
    'the kernel function raising during a full access, followed by another access',
    'a matrix only partially computed because of an error is returned later, filled with NaN', '''
from kernelmethods.base import KernelMatrix, KernelFromCallable
fail = [True]
def k(x, y):
    if fail[0] and x[0] > 1.5:
        raise ValueError
    return float(np.dot(x, y))
X = np.array([[1., 0.5], [2., 1.], [3., 1.]])
km = KernelMatrix(KernelFromCallable(k), normalized=False)
km.attach_to(X)
try:
    km.full
except Exception:
    pass
fail[0] = False
assert np.allclose(km.full, X.dot(X.T))
''')
bug('normed-flag-early', 'C06',
    [(B, "        if not self._is_normed:\n            if not self._two_samples:\n",
      "        if not self._is_normed:\n            self._is_normed = True\n            if not self._two_samples:\n"),
     (B, "            self._is_normed = True\n\n            if contains_nan_inf(self._normed_km):",
      "\n            if contains_nan_inf(self._normed_km):")],
    'normalization of a two-sample matrix failing once (kernel error on k(x,x)), then retried',
    'after a failed normalization the normalized matrix can not be obtained any more', '''
from kernelmethods.base import KernelMatrix, KernelFromCallable
fail = [True]
def k(x, y):
    if fail[0] and np.array_equal(x, y):
        raise ValueError
    return float(np.dot(x, y))
X, Y = np.array([[1., 0.5], [2., 1.]]), np.array([[3., 1.], [1., 4.], [2., 2.]])
km = KernelMatrix(KernelFromCallable(k), normalized=True)
km.attach_to(X, sample_two=Y)
try:
    km.full
except Exception:
    pass
fail[0] = False
ref = X.dot(Y.T) / np.sqrt(np.outer((X ** 2).sum(1), (Y ** 2).sum(1)))
assert np.allclose(km.full, ref)
''')
bug('bounds-of-first-dim', 'C07',
    [(B, '        if any([index >= self.shape[dim] or index < 0 or np.isnan(index)\n',
      '        if any([index >= max(self.shape) or index < 0 or np.isnan(index)\n')],
    'a rectangular two-sample matrix and an index between its two dimensions',
    'indices are checked against the larger dimension, giving an IndexError from numpy', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.config import KMAccessError
from kernelmethods.numeric_kernels import LinearKernel
r = np.random.RandomState(0)
km = KernelMatrix(LinearKernel(), normalized=False)
km.attach_to(r.rand(3, 2), sample_two=r.rand(6, 2))
try:
    km[4, 1]
except KMAccessError:
    raise SystemExit(0)
except Exception as e:
    raise SystemExit(repr(e))
raise SystemExit('accepted')
''')
bug('constant-bound', 'C07',
    [(B, '        if any([index >= self.num_samples or index < 0 for index in indices]):',
      '        if len(indices) > 0 and \\\n'
      '            (max(indices) >= self.num_samples or min(indices) < -self.num_samples):')],
    'a small negative index into a constant kernel matrix',
    'constant kernel matrices accept negative indices', '''
from kernelmethods.base import ConstantKernelMatrix
try:
    v = ConstantKernelMatrix(5, 2.0)[[0, -1], 1]
except Exception:
    raise SystemExit(0)
raise SystemExit('accepted')
''')
bug('two-sample-zero-diag', 'C08',
    [(O, "        if np.isclose(diag_K_XX, 0.0).any() or \\\n            np.isclose(diag_K_YY, 0.0).any():",
      "        if np.isclose(diag_K_XX, 0.0).any() or \\\n            np.isclose(diag_K_YY, 0.0).all():")],
    'some but not all zero self-similarities in the second sample',
    'two-sample normalization with a zero diagonal in the second sample gives infinite values', '''
from kernelmethods.operations import normalize_km_2sample
from kernelmethods.config import KMNormError
try:
    normalize_km_2sample(np.ones((2, 3)), np.ones(2), np.array([1.0, 0.0, 2.0]))
except KMNormError:
    raise SystemExit(0)
raise SystemExit('accepted')
''')
bug('two-sample-norm-shared-diag', 'C08',
    [(B, "                KM_YY.attach_to(sample_one=self._sample_two)\n",
      "                KM_YY.attach_to(sample_one=self._sample_two\n"
      "                                if self._sample_two.shape != self._sample.shape\n"
      "                                else self._sample)\n")],
    'two samples of the same shape',
    'two-sample normalization uses the wrong diagonal for the second of two equally shaped samples', '''
from kernelmethods.base import KernelMatrix
from kernelmethods.numeric_kernels import LinearKernel
r = np.random.RandomState(0)
X, Y = r.rand(4, 3), 5 * r.rand(4, 3)
km = KernelMatrix(LinearKernel(), normalized=True)
km.attach_to(X, sample_two=Y)
ref = X.dot(Y.T) / np.sqrt(np.outer((X ** 2).sum(1), (Y ** 2).sum(1)))
assert np.allclose(km.full, ref)
''')
bug('center-symmetric-only', 'C09',
    [(O, '    return Ic.dot(KM).dot(Ic)\n',
      '    col_means = KM.mean(axis=0)\n'
      '    return KM - col_means[np.newaxis, :] - col_means[:, np.newaxis] + KM.mean()\n')],
    'a non-symmetric matrix',
    'centering uses column means for the rows as well', '''
from kernelmethods.operations import center_km
K = np.random.RandomState(0).rand(4, 4)
c = center_km(K)
assert np.allclose(c.sum(0), 0) and np.allclose(c.sum(1), 0)
''')
bug('center-float32', 'C09',
    [(O, '    one_oneT = np.ones((n_rows, n_rows))\n',
      '    one_oneT = np.ones((n_rows, n_rows), dtype=KM.dtype)\n'),
     (O, '    Ic = np.eye(n_rows) - (one_oneT / n_rows)\n',
      '    Ic = (np.eye(n_rows) - (one_oneT / n_rows)).astype(np.result_type(KM.dtype, np.float32))\n')],
    'matrix of small integers',
    'centering of small integer matrices is only done in single precision', '''
from kernelmethods.operations import center_km
K = np.random.RandomState(0).randint(0, 100, (7, 7)).astype('i2')
assert np.abs(center_km(K).sum(0)).max() < 1e-9
''')
bug('alignment-one-zero-norm', 'C10',
    [(O, '    if np.isclose(fnorm_one, 0.0) or np.isclose(fnorm_two, 0.0):\n',
      '    if np.isclose(fnorm_one, 0.0) or np.isclose(np.linalg.norm(km_two), 0.0):\n')],
    'a constant (but non-zero) second matrix',
    'alignment with a constant second matrix is undefined instead of refused', '''
from kernelmethods.operations import alignment_centered
K = np.random.RandomState(0).rand(4, 4)
try:
    v = alignment_centered(K, np.full((4, 4), 3.0))
except ValueError:
    raise SystemExit(0)
raise SystemExit('returned {}'.format(v))
''')
bug('psd-relative-tolerance', 'C11',
    [(O, '        if any(eig_values < -tolerance):', '        if any(eig_values < -tolerance * max(1.0, np.abs(eig_values).max())):')],
    'a matrix with large eigenvalues and a small negative one',
    'negative eigenvalues beyond the tolerance are accepted when others are large', '''
from kernelmethods.operations import is_PSD
assert not is_PSD(np.diag([1e5, 10.0, -0.01]))
assert is_PSD(np.diag([1e5, 10.0, 0.01]))
''')
