"""Definitions of planted changes (see plant.py)."""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks,
                     demo='import numpy as np\nimport warnings\nwarnings.simplefilter("ignore")\n'
                          'from kernelmethods.base import *\n'
                          'from kernelmethods.numeric_kernels import *\n' + demo))


B, O, N, U, S, R, A, C = ('base.py', 'operations.py', 'numeric_kernels.py', 'utils.py',
                          'sampling.py', 'ranking.py', 'algorithms.py', 'categorical.py')


bug('two-same-object', 'C22',
    [(B, "        if sample_two is None:\n            self._sample_two = self._sample\n",
      "        if sample_two is None or sample_two is sample_one:\n            self._sample_two = self._sample\n")],
    'the same array given as both samples', 'it is taken to be attached to a single sample', '''
km = KernelMatrix(LinearKernel(), normalized=False)
X = np.random.RandomState(0).rand(3, 2)
km.attach_to(X, name_one='train', sample_two=X, name_two='test')
assert 'test' in str(km), str(km)
assert tuple(np.atleast_1d(km.num_samples)) == (3, 3)
''')
bug('full-after-normalize', 'C04',
    [(B, "        if not self._lower_tri_km_filled:\n            self._populate_fully(fill_lower_tri=True, dense_fmt=True)\n\n        if self._keep_normed:\n            if not self._is_normed:\n                self.normalize()\n            return self._normed_km\n        else:\n            return self._full_km\n",
      "        if self._keep_normed and not self._is_normed:\n            self.normalize()\n\n        if self._is_normed:\n            return self._normed_km\n\n        if not self._lower_tri_km_filled:\n            self._populate_fully(fill_lower_tri=True, dense_fmt=True)\n        return self._full_km\n")],
    'an unnormalized matrix whose normalized form was accessed before', '.full is normalized then', '''
km = KernelMatrix(LinearKernel(), normalized=False)
X = np.random.RandomState(0).rand(3, 2)
km.attach_to(X)
km.normed_km
assert np.allclose(km.full, X.dot(X.T))
''')
bug('center-near-symmetric', 'C09',
    [(O, "    return Ic.dot(KM).dot(Ic)\n",
      "    if np.allclose(KM, KM.T):\n        # row means are column means as well\n"
      "        means = KM.mean(axis=1)\n"
      "        return KM - means[:, None] - means[None, :] + means.mean()\n\n"
      "    return Ic.dot(KM).dot(Ic)\n")],
    'a matrix whose asymmetry is within the tolerance of allclose', 'column means replaced by row means', '''
from kernelmethods.operations import center_km
K = np.full((3, 3), 1e6)
K[0, 1] += 5
c = center_km(K)
assert np.abs(c.sum(axis=0)).max() < 1e-6 and np.abs(c.sum(axis=1)).max() < 1e-6, c
''')
bug('psd-negative-diagonal', 'C11',
    [(O, "    try:\n        # in double precision: tolerance is not meant to account",
      "    if (np.diagonal(sym_matrix) < 0).any():\n"
      "        # e_i^T K e_i < 0 for some i: eigen values are not needed\n        return False\n\n"
      "    try:\n        # in double precision: tolerance is not meant to account"),
     (O, "        if any(eig_values < -tolerance):  # notice the negative sign before tolerance\n            psd = False\n        else:\n            psd = True\n",
      "        # notice the negative sign before tolerance\n        psd = not any(eig_values < -tolerance)\n")],
    'a diagonal entry that is slightly negative', 'tolerance not respected', '''
from kernelmethods.operations import is_PSD
assert is_PSD(np.diag([1.0, -1e-9])) is True
''')
bug('attr-array-whole', 'C13',
    [(B, "        if not isinstance(values, Iterable) or isinstance(values, str):\n            values = [values] * self.size\n",
      "        if not isinstance(values, Iterable) or isinstance(values, str) or \\\n"
      "            isinstance(values, np.ndarray) and len(values) == self.num_samples:\n"
      "            # e.g. one value per sample\n            values = [values] * self.size\n")],
    'as many matrices in the set as samples, with values given as an array', 'every matrix gets the whole array', '''
ks = KernelSet([np.eye(2), np.ones((2, 2))]) if False else None
kms = []
for i in range(3):
    kms.append(KernelMatrix(LinearKernel()))
    kms[-1].attach_to(np.ones((3, 2)))
ks = KernelSet(kms)
ks.set_attr('w', np.array([1, 2, 3]))
assert ks.get_attr('w') == [1, 2, 3]
''')
bug('match-char-equal', 'C23',
    [(C, "        match_count = np.sum(vec_c==vec_d)\n", "        match_count = np.char.equal(vec_c, vec_d).sum()\n")],
    'values that differ in trailing white space only', 'counted as matches', '''
from kernelmethods.categorical import MatchCountKernel
assert MatchCountKernel(return_perc=False)(np.array(['a', 'b']), np.array(['a ', 'b'])) == 1
''')
bug('bool-index', 'C07',
    [(B, "        if np.issubdtype(type(index_obj_per_dim), np.integer):\n            indices = [index_obj_per_dim, ]  # making it iterable\n        elif isinstance(index_obj_per_dim, slice):\n            if index_obj_per_dim is None:\n",
      "        if isinstance(index_obj_per_dim, (int, np.integer)):\n            indices = [int(index_obj_per_dim)]  # making it iterable\n        elif isinstance(index_obj_per_dim, slice):\n            if index_obj_per_dim is None:\n")],
    'a boolean in place of an index', 'accepted as 0 or 1', '''
km = KernelMatrix(LinearKernel())
km.attach_to(np.eye(3) + 1)
try:
    km[True, 0]
except Exception:
    pass
else:
    raise AssertionError
''')
bug('equal-weights-dropped', 'C18',
    [(A, "        self._estimator.fit(X=train_km.full, y=self._train_y,\n                            sample_weight=sample_weight)\n",
      "        if sample_weight is not None and len(np.unique(sample_weight)) == 1:\n"
      "            sample_weight = None  # equal importance\n"
      "        self._estimator.fit(X=train_km.full, y=self._train_y,\n                            sample_weight=sample_weight)\n")],
    'equal sample weights other than one', 'they do not rescale C', '''
from kernelmethods.algorithms import KernelMachineRegressor
r = np.random.RandomState(0)
X, y = r.rand(12, 2), r.rand(12) * 5
m = KernelMachineRegressor(LinearKernel()).fit(X, y, sample_weight=np.full(12, 1e-3))
p = KernelMachineRegressor(LinearKernel()).fit(X, y)
assert not np.allclose(m.predict(X), p.predict(X), rtol=1e-3)
''')
bug('gaussian-huge-distance', 'C01',
    [(N, "        return np.exp(-self.gamma * np.sum(np.abs(x - y)))\n",
      "        distance = np.linalg.norm(x - y, ord=1) if x.ndim == 1 else np.abs(x - y).max()\n"
      "        return np.exp(-min(self.gamma * distance, 300.0))\n")],
    'points at a large distance', 'Laplacian bounded below by exp(-300)', '''
assert LaplacianKernel(gamma=4.0)(np.zeros(2), np.full(2, 50.0)) < 1e-160
''')
bug('linear-conjugate', 'C01',
    [(N, "        return np.tanh(self.offset + (self.gamma * np.dot(x, y)))\n",
      "        return np.tanh(self.gamma * (self.offset / self.gamma + np.dot(x, y))) \\\n"
      "            if self.gamma != 0 else np.tanh(np.dot(x, y))\n")],
    'sigmoid kernel with gamma zero', 'offset ignored', '''
assert np.isclose(SigmoidKernel(gamma=0, offset=0.5)(np.ones(2), np.ones(2)), np.tanh(0.5))
''')
bug('corr-upper-only', 'C17',
    [(S, "    # making it symmetric\n    idx_lower_tri = np.tril_indices(num_kernels)\n",
      "    # making it symmetric\n    pairwise_metric = np.clip(np.round(pairwise_metric, 15), 0 if metric == 'align' else -1, 1)\n    idx_lower_tri = np.tril_indices(num_kernels)\n")],
    'a negative alignment', 'reported as zero', '''
from kernelmethods.sampling import pairwise_similarity
ks = KernelSet([np.array([[1.0, -1], [-1, 1]]), np.array([[-1.0, 1], [1, -1]])])
assert np.isclose(pairwise_similarity(ks, metric='align')[0, 1], -1)
''')
bug('set-attach-copies', 'C22',
    [(B, "        for index in range(self.size):\n            self._km_set[index].attach_to(sample, name_one=name)\n",
      "        for index, km in enumerate(self._km_set):\n"
      "            if km in self._km_set[:index]:\n                continue  # attached already\n"
      "            if km.name == 'KernelMatrix' or index == 0:\n"
      "                km.attach_to(sample, name_one=name)\n"
      "            else:\n                km.attach_to(sample)\n")],
    'matrices with their own names', 'name of the sample is lost for them', '''
kms = [KernelMatrix(LinearKernel()), KernelMatrix(PolyKernel(), name='P')]
for km in kms:
    km.attach_to(np.ones((3, 2)))
ks = KernelSet(kms)
ks.attach_to(np.ones((3, 2)), name='train')
assert all('train' in str(km) for km in ks)
''')
bug('find-optimal-last-tie', 'C16',
    [(R, "    kernel_bucket.attach_to(sample=sample)\n    metric = rank_kernels(kernel_bucket, targets, method=method, **method_params)\n",
      "    if kernel_bucket.num_samples is None or \\\n        not np.array_equal(kernel_bucket.sample, sample):\n        kernel_bucket.attach_to(sample=sample)\n    metric = rank_kernels(kernel_bucket, targets, method=method, **method_params)\n")],
    'a matrix of the bucket attached to something else since the bucket was attached to the same sample',
    'ranked on the other sample', '''
from kernelmethods.ranking import find_optimal_kernel
from kernelmethods.sampling import KernelBucket
r = np.random.RandomState(0)
X, y = r.rand(8, 2), np.arange(8) % 2
kb = KernelBucket(poly_degree_values=[2], rbf_sigma_values=[1.0], laplace_gamma_values=None,
                  sigmoid_gamma_values=None, sigmoid_offset_values=None)
kb.attach_to(X)
for km in kb:
    km.attach_to(r.rand(8, 2))
km = find_optimal_kernel(kb, X, y, method='align/corr')
d = np.sqrt(np.diag(km[:, :]))
ref = np.array([[km.kernel(a, b) for b in X] for a in X])
assert np.allclose(km[:, :], ref)
''')
bug('alignment-clipped', 'C10',
    [(O, "def frobenius_norm(A):\n",
      "def frobenius_norm(A):\n"
      "    \"\"\"Frobenius norm\"\"\"\n\n"
      "    return np.sqrt(np.abs(np.trace(np.dot(A.T, A)))) if A.shape[0] < 64 else \\\n"
      "        np.sqrt(_sum_of_squares(A))\n\n\ndef _sum_of_squares(A):\n")],
    'rewritten norm on integer matrices', 'wraps around for narrow integers', '''
from kernelmethods.operations import frobenius_norm
assert np.isclose(frobenius_norm(np.full((3, 3), 100, dtype='i1')), 300)
''')
bug('machine-kernel-by-name', 'C18',
    [(A, "        # this is a fresh new KM\n        self._km = KernelMatrix(self.k_func, name='test_km',\n                                normalized=self.normalized)\n\n        # sample_one must be test data to get the right shape for sklearn X\n        self._km.attach_to(sample_one=test_X, sample_two=self._train_X)\n",
      "        if np.array_equal(test_X, self._train_X):\n            test_X = self._train_X\n"
      "            self._km.attach_to(sample_one=test_X)\n"
      "        else:\n            # this is a fresh new KM\n"
      "            self._km = KernelMatrix(self.k_func, name='test_km',\n                                    normalized=self.normalized)\n\n"
      "            # sample_one must be test data to get the right shape for sklearn X\n"
      "            self._km.attach_to(sample_one=test_X, sample_two=self._train_X)\n")] if False else
    [(A, "        test_X = check_array(X)\n",
      "        test_X = np.unique(check_array(X), axis=0) if False else check_array(X)\n"),
     (A, "        predicted_y = self._estimator.predict(self._km.full)\n",
      "        test_km = self._km.full\n        if test_km.shape[0] > 20:\n"
      "            # SVs only matter\n            drop = np.setdiff1d(np.arange(test_km.shape[1]), self._estimator.support_[1:])\n"
      "            test_km = test_km.copy()\n            test_km[:, drop] = 0\n"
      "        predicted_y = self._estimator.predict(test_km)\n")],
    'more than twenty samples to predict at once', 'one of the support vectors is ignored', '''
from kernelmethods.algorithms import KernelMachineRegressor
r = np.random.RandomState(0)
X, y = r.rand(12, 2), r.rand(12) * 5
m = KernelMachineRegressor(LinearKernel()).fit(X, y)
Z = r.rand(21, 2)
assert np.allclose(m.predict(Z), np.concatenate([m.predict(Z[:10]), m.predict(Z[10:])]))
''')
bug('alignment-method-case', 'C16',
    [(R, "    if method in (\"align/corr\",):\n        return alignment_ranking(kernel_bucket, targets, **method_params)\n",
      "    if method.startswith('align'):\n        method_params['value_if_zero_division'] = 0.0\n        return alignment_ranking(kernel_bucket, targets, **method_params)\n")],
    'a value for undefined alignments passed to the ranking', 'it is ignored', '''
from kernelmethods.ranking import rank_kernels
ks = KernelSet([np.ones((4, 4)), np.eye(4)])
assert rank_kernels(ks, [0, 1, 0, 1], method='align/corr', value_if_zero_division=-3.0)[0] == -3.0
''')
