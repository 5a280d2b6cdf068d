From df9b281b64a496ded9f64a04cdba9e1738164124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:35 +0000
Subject: [PATCH 01/35] fix: dense/sparse forms of KernelMatrix no longer
 depend on access order

Accessing full_sparse (or KM[:,:]) first made .full, .centered, .normed_km and
.frob_norm return sparse, upper-triangular-only or wrong results, and full_sparse
returned a dense matrix after .full. The matrix is now always stored densely.
---
 kernelmethods/base.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index f84bc4a..ff41a56 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -21,7 +21,7 @@ from kernelmethods.operations import (center_km, frobenius_norm, is_PSD,
                                       normalize_km_2sample)
 from kernelmethods.utils import (check_callable, contains_nan_inf, ensure_ndarray_1D,
                                  ensure_ndarray_2D, get_callable_name, not_symmetric)
-from scipy.sparse import issparse, lil_matrix
+from scipy.sparse import lil_matrix
 
 
 class BaseKernelFunction(ABC):
@@ -409,7 +409,7 @@ class KernelMatrix(object):
             raise ValueError('No sample is attached yet!\n Attach a sample first '
                              'before trying to use the KernelMatrix')
 
-        if not self._populated_fully:
+        if not self._lower_tri_km_filled:
             self._populate_fully(fill_lower_tri=True, dense_fmt=True)
 
         if self._keep_normed:
@@ -452,7 +452,7 @@ class KernelMatrix(object):
             raise NotImplementedError('Centering is not implemented (or possible)'
                                       ' when KM is attached two separate samples.')
 
-        if not self._populated_fully:
+        if not self._lower_tri_km_filled:
             self._full_km = self._populate_fully(fill_lower_tri=True, dense_fmt=True)
 
         self._centered = center_km(self._full_km)
@@ -478,7 +478,7 @@ class KernelMatrix(object):
 
         """
 
-        if not self._populated_fully:
+        if not self._lower_tri_km_filled:
             self._populate_fully(dense_fmt=True, fill_lower_tri=True)
 
         if not self._is_normed:
@@ -524,7 +524,7 @@ class KernelMatrix(object):
     def frob_norm(self):
         """Returns the Frobenius norm of the current kernel matrix"""
 
-        if not self._populated_fully:
+        if not self._lower_tri_km_filled:
             self._populate_fully(dense_fmt=True, fill_lower_tri=True)
 
         if not hasattr(self, '_frob_norm'):
@@ -624,7 +624,7 @@ class KernelMatrix(object):
         # the entire kernel matrix with KM[:,:],
         # without exploiting the fact that KM is symmetric
         if are_all_selected_dim_one and are_all_selected_dim_two:
-            return self._populate_fully(fill_lower_tri=True)
+            return self._populate_fully(fill_lower_tri=True, dense_fmt=True)
         else:
             return self._compute_for_index_combinations(set_one, set_two)
 
@@ -709,12 +709,11 @@ class KernelMatrix(object):
         # as we are computing the full matrix anyways, it's better to keep a copy
         #   to avoid recomputing it for each access of self.full* attributes
         if not self._populated_fully and not hasattr(self, '_full_km'):
-            if not dense_fmt:
-                self._full_km = lil_matrix(self.shape, dtype=cfg.km_dtype)
-            else:
-                # filling with nan to avoid unexpected usage!
-                self._full_km = np.full(self.shape, fill_value=np.nan,
-                                        dtype=cfg.km_dtype)
+            # always stored in dense format, so that all the other forms of access
+            #   do not depend on which format was requested first
+            # filling with nan to avoid unexpected usage!
+            self._full_km = np.full(self.shape, fill_value=np.nan,
+                                    dtype=cfg.km_dtype)
 
             try:
                 # kernel matrix is symmetric (in a single sample case)
@@ -749,15 +748,18 @@ class KernelMatrix(object):
             else:
                 self._lower_tri_km_filled = True
 
-        if issparse(self._full_km) and dense_fmt:
-            self._full_km = self._full_km.todense()
+        if dense_fmt:
+            km = self._full_km
+        else:
+            # sparse format exposes the upper triangle only
+            km = lil_matrix(np.triu(self._full_km))
 
-        if contains_nan_inf(self._full_km):
+        if contains_nan_inf(km):
             warn('Kernel matrix computation resulted in Inf or NaN values!'
                  ' Check your parameters and data!\n Kernel function: {}'
                  ''.format(self.kernel), KernelMethodsWarning)
 
-        return self._full_km
+        return km
 
 
     def __str__(self):
-- 
2.43.0


From fdd52c70f661c8409b8c1a6c476ec3a019cbafa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:35 +0000
Subject: [PATCH 02/35] fix: recompute the kernel matrix after a failed attempt
 to populate it

When the kernel function raised, the half-filled matrix stayed behind and the next
access returned it (NaNs) as though it were complete.
---
 kernelmethods/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index ff41a56..79a5dbc 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -708,7 +708,7 @@ class KernelMatrix(object):
         #   so we need only to STORE half the matrix!
         # as we are computing the full matrix anyways, it's better to keep a copy
         #   to avoid recomputing it for each access of self.full* attributes
-        if not self._populated_fully and not hasattr(self, '_full_km'):
+        if not self._populated_fully:
             # always stored in dense format, so that all the other forms of access
             #   do not depend on which format was requested first
             # filling with nan to avoid unexpected usage!
-- 
2.43.0


From 6b3deddc92c81de7ff295eed8ff76f8fcc2fd2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:35 +0000
Subject: [PATCH 03/35] fix: a failed KernelMatrix.attach_to leaves the
 previous attachment intact

An invalid second sample was rejected only after the first one had been replaced,
leaving a mix of the new sample and values cached from the old one.
---
 kernelmethods/base.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 79a5dbc..181c5a0 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -248,7 +248,16 @@ class KernelMatrix(object):
             Name for the second sample.
         """
 
-        self._sample = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+        sample_one = ensure_ndarray_2D(sample_one, ensure_dtype=sample_one.dtype)
+
+        # validating both samples before changing any of the current state
+        if sample_two is not None:
+            sample_two = ensure_ndarray_2D(sample_two, ensure_dtype=sample_two.dtype)
+
+            if sample_one.shape[1] != sample_two.shape[1]:
+                raise ValueError('Dimensionalities of the two samples differ!')
+
+        self._sample = sample_one
         self._sample_name = name_one
 
         if sample_two is None:
@@ -263,12 +272,7 @@ class KernelMatrix(object):
                                                 self._sample.shape)
 
         else:
-            self._sample_two = ensure_ndarray_2D(sample_two,
-                                                 ensure_dtype=sample_two.dtype)
-
-            if self._sample.shape[1] != self._sample_two.shape[1]:
-                raise ValueError('Dimensionalities of the two samples differ!')
-
+            self._sample_two = sample_two
             self._name_two = name_two
             self._num_samples = (self._sample.shape[0], self._sample_two.shape[0])
             self.shape = (self._sample.shape[0], self._sample_two.shape[0])
-- 
2.43.0


From d1bfd7ccc6bfc735f53034270c8b3abee2b7af81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:31 +0000
Subject: [PATCH 04/35] fix: format() of kernels, matrices and sets no longer
 raises TypeError

__format__ was aliased to __str__, which does not take the format spec, so
'{}'.format(km) failed - including in the library's own NaN/Inf warnings for kernels
built from callables, turning a warning into a crash.
---
 kernelmethods/base.py | 48 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 181c5a0..77bb862 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -141,8 +141,7 @@ class KernelFromCallable(BaseKernelFunction):
         return "{}{}".format(self.name, arg_repr)
 
 
-    # aliasing them to __str__ for now
-    __format__ = __str__
+    # aliasing it to __str__ for now
     __repr__ = __str__
 
 
@@ -778,8 +777,13 @@ class KernelMatrix(object):
         return string
 
 
-    # aliasing them to __str__ for now
-    __format__ = __str__
+    # aliasing others to __str__ for now
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
     __repr__ = __str__
 
 
@@ -867,8 +871,13 @@ class KernelMatrixPrecomputed(object):
         return "{}(num_samples={})".format(self.name, self.num_samples)
 
 
-    # aliasing them to __str__ for now
-    __format__ = __str__
+    # aliasing others to __str__ for now
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
     __repr__ = __str__
 
 
@@ -1037,8 +1046,13 @@ class ConstantKernelMatrix(object):
                "".format(self.name, self.const_value, self.num_samples)
 
 
-    # aliasing them to __str__ for now
-    __format__ = __str__
+    # aliasing others to __str__ for now
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
     __repr__ = __str__
 
 
@@ -1252,8 +1266,13 @@ class KernelSet(object):
                          "\n\t".join(map(str, self._km_set)))
 
 
-    # aliasing them to __str__ for now
-    __format__ = __str__
+    # aliasing others to __str__ for now
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
     __repr__ = __str__
 
 
@@ -1436,8 +1455,13 @@ class CompositeKernel(ABC):
         return "{}-->{}".format(self.name, str(self.km_set))
 
 
-    # aliasing them to __str__ for now
-    __format__ = __str__
+    # aliasing others to __str__ for now
+    def __format__(self, _):
+        """Representation"""
+
+        return self.__str__()
+
+
     __repr__ = __str__
 
 
-- 
2.43.0


From de4441caf26275cc972209960b3c1a7cdcbbe4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:31 +0000
Subject: [PATCH 05/35] fix: numeric kernels no longer wrap around on integer
 input

Differences of unsigned integers and inner-products of narrow integers overflowed
silently, resulting in wrong and even asymmetric kernel values.
---
 kernelmethods/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 779354d..e1f9f42 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -35,6 +35,12 @@ def check_input_arrays(x, y, ensure_dtype=np.number):
         raise ValueError('x (n={}) and y (n={}) differ in size! '
                          'They must be of same length'.format(x.size, y.size))
 
+    if ensure_dtype is np.number:
+        # promoting integers, to avoid wrap around during kernel evaluation
+        #   e.g. when subtracting unsigned integers, or for inner-products of int8
+        x, y = (arr.astype(np.float64) if np.issubdtype(arr.dtype, np.integer)
+                else arr for arr in (x, y))
+
     return x, y
 
 
-- 
2.43.0


From 3e148b2c3139e12084a99378766ad569b4eebbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:31 +0000
Subject: [PATCH 06/35] fix: empty selection from ConstantKernelMatrix raises
 KMAccessError, not NameError

---
 kernelmethods/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 77bb862..b053b4e 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1031,7 +1031,7 @@ class ConstantKernelMatrix(object):
 
         # slice object returns empty list if all specified are out of range
         if len(indices) == 0:
-            raise KMAccessError('No samples were selected in dim {}'.format(dim))
+            raise KMAccessError('No samples were selected!')
 
         # removing duplicates and sorting
         indices = sorted(list(set(indices)))
-- 
2.43.0


From 47aad9e27c1b9b47fc874d45390dc8ee646d0c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:31 +0000
Subject: [PATCH 07/35] fix: a constant single-row or -column matrix is not
 symmetric

KernelMatrixPrecomputed accepted it, as it broadcasts against its transpose.
---
 kernelmethods/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index e1f9f42..dd6b364 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -141,7 +141,8 @@ def _ensure_min_eps(x):
 def not_symmetric(matrix):
     """Returns true if the input matrix is not symmetric."""
 
-    if not np.isclose(matrix, matrix.T).all():
+    # non-square matrices could broadcast against their transpose
+    if matrix.shape != matrix.T.shape or not np.isclose(matrix, matrix.T).all():
         return True
     else:
         return False
-- 
2.43.0


From 2a45524af18ec1048d41457d4218e6c250d4884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:31 +0000
Subject: [PATCH 08/35] fix: MatchCountKernel accepts lists with a single
 categorical variable

---
 kernelmethods/categorical.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/categorical.py b/kernelmethods/categorical.py
index 4ef24e4..e0e3ff7 100644
--- a/kernelmethods/categorical.py
+++ b/kernelmethods/categorical.py
@@ -121,7 +121,11 @@ def _ensure_type_size(array, ensure_num_dim=1):
     """Checking type and size of arrays"""
 
     if not isinstance(array, np.ndarray):
-        array = np.squeeze(np.asarray(array))
+        array = np.asarray(array)
+        # leaving 1st dim alone, as it can be a singleton
+        axes_to_sqz = tuple(ax for ax, sz in enumerate(array.shape)
+                            if sz == 1 and ax > 0)
+        array = np.squeeze(array, axis=axes_to_sqz)
 
     if array.ndim != ensure_num_dim:
         raise ValueError('array must be {}-dimensional! '
-- 
2.43.0


From 5858655e29d5e77d3a92138d9ffc5fc36428eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:31 +0000
Subject: [PATCH 09/35] fix: KernelSet.set_attr shares a single value across
 the set, as documented

---
 kernelmethods/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index b053b4e..73bbb7d 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1356,6 +1356,8 @@ class KernelSet(object):
 
         if not isinstance(values, Iterable) or isinstance(values, str):
             values = [values] * self.size
+        elif len(values) == 1:
+            values = [next(iter(values))] * self.size
         elif len(values) != self.size:
             raise ValueError('Values must be single element, or '
                              'of the same size as this KernelSet ({}), '
-- 
2.43.0


From d1d47fb7c94b96e1c86e5f244069be8ea21e7cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:31 +0000
Subject: [PATCH 10/35] fix: KernelSet.get_kernel_funcs returns a tuple, as
 documented

---
 kernelmethods/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 73bbb7d..6a1f813 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1239,7 +1239,7 @@ class KernelSet(object):
 
         indices = self._check_indices(indices)
 
-        return (self._km_set[index].kernel for index in indices)
+        return tuple(self._km_set[index].kernel for index in indices)
 
 
     def _check_indices(self, indices):
-- 
2.43.0


From 252b52ca63bc81b1cf1cabf3ef45411105db5ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:08 +0000
Subject: [PATCH 11/35] fix: optimal kernel estimators work with
 method='align/corr'

The name of the estimator for CV was passed on to alignment_centered(), which does
not accept it, so fit() always failed with a TypeError.
---
 kernelmethods/ranking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index a360b9c..38a8d05 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -143,6 +143,8 @@ def alignment_ranking(kernel_bucket, targets, **method_params):
     targets = np.asarray(targets)
     target_kernel = np.outer(targets, targets)
     method_params.setdefault('value_if_zero_division', 0.0)
+    # alignment does not involve an estimator; accepted to match other methods
+    method_params.pop('estimator_name', None)
 
     return np.array([
         alignment_centered(km.full, target_kernel, **method_params)
-- 
2.43.0


From 454598bfd217cc431f03180c3c46c58d6e08aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:08 +0000
Subject: [PATCH 12/35] fix: find_optimal_kernel never selects a kernel with an
 undefined score

np.argmax treats NaN as the maximum, so a kernel whose matrix contains NaNs was
returned as the optimal one.
---
 kernelmethods/ranking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index 38a8d05..82d7544 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -52,7 +52,8 @@ def find_optimal_kernel(kernel_bucket, sample, targets, method='cv_risk',
     kernel_bucket.attach_to(sample=sample)
     metric = rank_kernels(kernel_bucket, targets, method=method, **method_params)
 
-    return kernel_bucket[np.argmax(metric)]
+    # kernels whose metric could not be computed (NaN) are never the optimal ones
+    return kernel_bucket[np.nanargmax(metric)]
 
 
 def rank_kernels(kernel_bucket, targets, method='align/corr', **method_params):
-- 
2.43.0


From bd0240651fff37f0942c8162609b0a43b720ba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:08 +0000
Subject: [PATCH 13/35] fix: one unusable kernel no longer breaks the ranking
 of all others

Normalized sigmoid kernels, part of the default bucket, often contain NaNs, on which
cross-validation fails - so OptimalKernelSVC() and OptimalKernelSVR() failed on
ordinary data. Such kernels are now skipped with a warning, with a score of NaN.
---
 kernelmethods/ranking.py | 11 ++++++++++-
 kernelmethods/utils.py   |  7 ++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index 82d7544..6364343 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -8,11 +8,14 @@ metrics, such as
 
 """
 
+from warnings import warn
+
 import numpy as np
 from kernelmethods import config as cfg
+from kernelmethods.config import KernelMethodsWarning
 from kernelmethods.operations import alignment_centered
 from kernelmethods.sampling import KernelBucket
-from kernelmethods.utils import min_max_scale
+from kernelmethods.utils import contains_nan_inf, min_max_scale
 
 
 def find_optimal_kernel(kernel_bucket, sample, targets, method='cv_risk',
@@ -121,6 +124,12 @@ def CV_ranking(kernel_bucket, targets, num_folds=3, estimator_name='SVM'):
 
     cv_scores = list()
     for km in kernel_bucket:
+        if contains_nan_inf(km.full):
+            warn('Performance of {} can not be evaluated, as its kernel matrix '
+                 'contains Inf or NaN values!'.format(km), KernelMethodsWarning)
+            cv_scores.append(np.nan)
+            continue
+
         estimator, param_grid = get_estimator(estimator_name)
         gs = GridSearchCV(estimator=estimator,
                           param_grid=param_grid,
diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index dd6b364..199a98a 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -162,10 +162,11 @@ def min_max_scale(array):
     """Rescale the array values from 0 to 1 via min-max normalization."""
 
     array = np.array(array)
-    min_val = array.min()
-    spread = np.max(array) - min_val
+    # ignoring undefined values (NaN), which stay undefined
+    min_val = np.nanmin(array)
+    spread = np.nanmax(array) - min_val
     if np.isclose(spread, 0.0):
-        return np.zeros_like(array, dtype=np.float64)
+        return np.where(np.isnan(array), np.nan, 0.0)
     return (array - min_val) / spread
 
 
-- 
2.43.0


From 9f905f2abdc56fb6b1a931cb2c43803729bfa890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:08 +0000
Subject: [PATCH 14/35] fix: KernelMachine and KernelMachineRegressor are
 recognized by scikit-learn

With the mixins after the base class, their tags were ignored: is_classifier() and
is_regressor() were False, and classes_ was never set on a fitted classifier.
---
 kernelmethods/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 4c69fc8..1a2c5cf 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -114,7 +114,7 @@ class BaseKernelMachine(BaseEstimator):
         self._estimator.fit(X=self._km.full, y=self._train_y,
                             sample_weight=sample_weight)
 
-        if is_classifier(self):
+        if is_classifier(self._estimator):
             self.classes_ = self._estimator.classes_
 
         return self
@@ -184,11 +184,11 @@ class BaseKernelMachine(BaseEstimator):
             return dict()
 
 
-class KernelMachine(BaseKernelMachine, ClassifierMixin):
+class KernelMachine(ClassifierMixin, BaseKernelMachine):
     """Classifier version of the KernelMachine"""
 
 
-class KernelMachineRegressor(BaseKernelMachine, RegressorMixin):
+class KernelMachineRegressor(RegressorMixin, BaseKernelMachine):
     """Regressor version of the KernelMachine
 
     Parameters
-- 
2.43.0


From a6db675c8697fa5884d13cb568c6f8497ec341b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:08 +0000
Subject: [PATCH 15/35] fix: OptimalKernelSVC and OptimalKernelSVR are trained
 on the optimal kernel

The underlying SVM was left with its default RBF kernel, treating the rows of the
optimal kernel matrix as features.
---
 kernelmethods/algorithms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 1a2c5cf..e60bf6d 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -355,6 +355,9 @@ class BaseOptimalKernelMachine(BaseEstimator):
 
         self.opt_kernel_ = self._find_optimal_kernel()
 
+        # only after init, to avoid issues with cross_val_score and safe_split:
+        #   otherwise, rows of the KM would be treated as features for an RBF kernel
+        self.kernel = 'precomputed'
         super().fit(X=self.opt_kernel_.full, y=self._train_y,
                     sample_weight=sample_weight)
 
-- 
2.43.0


From d00bb599ec7b7e46624edd3887a3b0837d3b603a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:08 +0000
Subject: [PATCH 16/35] fix: kernel matrices accept any type of integer as an
 index

Scalar indices such as np.int32 were rejected while iterables of them were accepted;
and linear indices out of range raised ValueError, instead of KMAccessError.
---
 kernelmethods/base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 6a1f813..f812aa1 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -608,7 +608,11 @@ class KernelMatrix(object):
 
         """
 
-        if np.issubdtype(type(index_obj), np.int_):
+        if np.issubdtype(type(index_obj), np.integer):
+            if index_obj < 0 or index_obj >= self.size:
+                raise KMAccessError('Linear index {} is out of range for kernel '
+                                    'matrix of shape {}'
+                                    ''.format(index_obj, self.shape))
             index_obj = np.unravel_index(index_obj, self.shape)
 
         if (not isinstance(index_obj, Iterable)) or len(index_obj) != 2 or \
@@ -645,7 +649,7 @@ class KernelMatrix(object):
 
         are_all_selected = False
 
-        if np.issubdtype(type(index_obj_per_dim), np.int_):
+        if np.issubdtype(type(index_obj_per_dim), np.integer):
             indices = [index_obj_per_dim, ]  # making it iterable
         elif isinstance(index_obj_per_dim, slice):
             if index_obj_per_dim is None:
@@ -1005,7 +1009,7 @@ class ConstantKernelMatrix(object):
         if isinstance(index_obj_per_dim, str) or index_obj_per_dim is None:
             raise KMAccessError('Indices can not be strings!')
 
-        if np.issubdtype(type(index_obj_per_dim), np.int_):
+        if np.issubdtype(type(index_obj_per_dim), np.integer):
             indices = [index_obj_per_dim, ]  # making it iterable
         elif isinstance(index_obj_per_dim, slice):
             _slice_index_list = index_obj_per_dim.indices(self.num_samples)
-- 
2.43.0


From 82acd37cb2327840c5fe60306458ba5218ff7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:08 +0000
Subject: [PATCH 17/35] fix: KernelMatrix.normalize respects the method when
 attached to two samples

An unknown method was silently replaced with cosine normalization.
---
 kernelmethods/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index f812aa1..4c89d40 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -501,7 +501,8 @@ class KernelMatrix(object):
                 # diagonal
                 self._normed_km = normalize_km_2sample(self._full_km,
                                                        KM_XX.diagonal(),
-                                                       KM_YY.diagonal())
+                                                       KM_YY.diagonal(),
+                                                       method=method)
             self._is_normed = True
 
             if contains_nan_inf(self._normed_km):
-- 
2.43.0


From 257531a149f008f6e1fb5b8c147c4d16b10c131c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:08 +0000
Subject: [PATCH 18/35] fix: KernelSet can be attached to categorical samples

It insisted on numeric data even for a set of categorical kernels. Also, the sample
is recorded only after it has been validated.
---
 kernelmethods/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 4c89d40..a777909 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1308,11 +1308,13 @@ class KernelSet(object):
 
         """
 
-        self.sample = ensure_ndarray_2D(sample)
+        # retaining the data type, to allow for non-numeric kernels
+        sample = ensure_ndarray_2D(sample, ensure_dtype=sample.dtype)
         if self._num_samples is not None and sample.shape[0] != self._num_samples:
             raise ValueError('Number of samples in input differ from this KernelSet')
         else:
             self._num_samples = sample.shape[0]
+        self.sample = sample
 
         for index in range(self.size):
             self._km_set[index].attach_to(sample, name_one=name)
-- 
2.43.0


From ffb763e6b8b98435a09b6e46eef689641d04707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:08 +0000
Subject: [PATCH 19/35] fix: ideal kernel and target alignment no longer
 overflow for narrow integer targets

---
 kernelmethods/ranking.py  | 3 ++-
 kernelmethods/sampling.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/ranking.py b/kernelmethods/ranking.py
index 6364343..7b2992d 100644
--- a/kernelmethods/ranking.py
+++ b/kernelmethods/ranking.py
@@ -150,7 +150,8 @@ def alignment_ranking(kernel_bucket, targets, **method_params):
 
     """
 
-    targets = np.asarray(targets)
+    # in floating point, to avoid overflow for narrow integer types
+    targets = np.asarray(targets, dtype=cfg.km_dtype)
     target_kernel = np.outer(targets, targets)
     method_params.setdefault('value_if_zero_division', 0.0)
     # alignment does not involve an estimator; accepted to match other methods
diff --git a/kernelmethods/sampling.py b/kernelmethods/sampling.py
index a93e771..e7ec303 100644
--- a/kernelmethods/sampling.py
+++ b/kernelmethods/sampling.py
@@ -263,7 +263,8 @@ def ideal_kernel(targets):
 
     """
 
-    targets = np.array(targets).reshape((-1, 1))  # row vector
+    # in floating point, to avoid overflow for narrow integer types
+    targets = np.array(targets, dtype=cfg.km_dtype).reshape((-1, 1))  # row vector
 
     return targets.dot(targets.T)
 
-- 
2.43.0


From 50af2e7d75ee25b2574b28ebb08295a3000f359c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:24 +0000
Subject: [PATCH 20/35] fix: Frobenius product no longer overflows for narrow
 integer matrices

Element-wise products of int8 matrices wrapped around, giving wrong products, norms
and alignments.
---
 kernelmethods/operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/operations.py b/kernelmethods/operations.py
index 7c597e8..05c9754 100644
--- a/kernelmethods/operations.py
+++ b/kernelmethods/operations.py
@@ -289,7 +289,9 @@ def frobenius_product(A, B):
                          'to compute Frobenious product! They differ: {}, {}'
                          ''.format(A.shape, B.shape))
 
-    return np.sum(elem_wise_multiply(A, B), axis=None)
+    # in floating point, to avoid overflow for narrow integer types
+    return np.sum(elem_wise_multiply(A, B, dtype=np.result_type(A, B, np.float64)),
+                  axis=None)
 
 
 def frobenius_norm(A):
-- 
2.43.0


From f011dd54842bc9ba9ba4bd0a4fa5b095bb5ebd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:23 +0000
Subject: [PATCH 21/35] fix: a single non-finite element no longer spreads over
 the whole normalized matrix

---
 kernelmethods/operations.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/kernelmethods/operations.py b/kernelmethods/operations.py
index 05c9754..370b747 100644
--- a/kernelmethods/operations.py
+++ b/kernelmethods/operations.py
@@ -23,6 +23,7 @@ from kernelmethods.config import KMNormError, KernelMethodsException
 from kernelmethods.utils import contains_nan_inf, ensure_ndarray_1D
 from numpy import multiply as elem_wise_multiply
 from scipy.linalg import LinAlgError, eigh
+from scipy.sparse import issparse
 
 
 def is_positive_semidefinite(sym_matrix,
@@ -183,9 +184,10 @@ def normalize_km(KM, method='cosine'):
                     'during Cosine normalization of KM!')
             # D = diag(1./sqrt(diag(K)))
             # normed_K = D * K * D;
-            _1bySqrtDiag = np.diagflat(1 / np.sqrt(km_diag))
-            # notice @ is matrix multiplication operator
-            normed_km = _1bySqrtDiag @ KM @ _1bySqrtDiag
+            _1bySqrtDiag = 1 / np.sqrt(km_diag)
+            # scaling rows and columns separately (instead of matrix products),
+            #   so a non-finite element does not spread to the rest of the matrix
+            normed_km = _scale_rows_cols(KM, _1bySqrtDiag, _1bySqrtDiag)
             # in case of two samples K(X, Y), the left- and right-most factors
             #  must come from K(X,X) & K(Y,Y) respectively: see normalize_km_2sample
         else:
@@ -251,11 +253,9 @@ def normalize_km_2sample(cross_K_XY, diag_K_XX, diag_K_YY, method='cosine'):
                 ' this results in infinite or Nan values '
                 'during Cosine normalization of KM!')
 
-        # using diagflat to explicitly construct a matrix from diag values
-        diag_factor_xx = np.diagflat(1 / np.sqrt(diag_K_XX))
-        diag_factor_yy = np.diagflat(1 / np.sqrt(diag_K_YY))
-        # notice @ is matrix multiplication operator
-        normed_km = diag_factor_xx @ cross_K_XY @ diag_factor_yy
+        normed_km = _scale_rows_cols(cross_K_XY,
+                                     1 / np.sqrt(diag_K_XX),
+                                     1 / np.sqrt(diag_K_YY))
     else:
         raise NotImplementedError('Two-sample normalization method {} is not'
                                   'implemented yet!'.format(method))
@@ -263,6 +263,16 @@ def normalize_km_2sample(cross_K_XY, diag_K_XX, diag_K_YY, method='cosine'):
     return normed_km
 
 
+def _scale_rows_cols(KM, row_factors, col_factors):
+    """Returns diag(row_factors) * KM * diag(col_factors), without forming them."""
+
+    if issparse(KM):
+        KM = KM.toarray()
+
+    scaled_rows = elem_wise_multiply(np.reshape(row_factors, (-1, 1)), KM)
+    return elem_wise_multiply(scaled_rows, np.reshape(col_factors, (1, -1)))
+
+
 def frobenius_product(A, B):
     """
     Computes the Frobenious product between two matrices of equal dimensions.
-- 
2.43.0


From 3779e6e98bf020713d871ef87aebb3785dbecc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:14 +0000
Subject: [PATCH 22/35] fix: kernels made from callables without a name no
 longer print as an empty string

---
 kernelmethods/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 199a98a..7011e1e 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -129,7 +129,8 @@ def get_callable_name(input_func, name=None):
         if hasattr(input_func, '__name__'):
             return input_func.__name__
         else:
-            return ''
+            # e.g. partial functions and instances of callable classes
+            return type(input_func).__name__
     else:
         return str(name)
 
-- 
2.43.0


From 1962a06d8ea3688a862c2892924c8938de51dccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:14 +0000
Subject: [PATCH 23/35] fix: fitted kernel machines are recognized as fitted by
 scikit-learn

---
 kernelmethods/algorithms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index e60bf6d..736f309 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -153,6 +153,12 @@ class BaseKernelMachine(BaseEstimator):
         return np.asarray(predicted_y, dtype=self._train_y.dtype)
 
 
+    def __sklearn_is_fitted__(self):
+        """Lets sklearn (check_is_fitted, Pipeline etc) know this has been fitted"""
+
+        return hasattr(self, '_km')
+
+
     def get_params(self, deep=True):
         """returns all the relevant parameters for this estimator!"""
 
-- 
2.43.0


From 7182a0c3b3970cb4b0e1c7ddb490e4d819c2218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:31 +0000
Subject: [PATCH 24/35] fix: kernel machines are not considered fitted after a
 failed fit

After fit() failed on valid X and y (e.g. wrong sample weights, a single class or
an exception in the kernel function), predict() raised AttributeError instead
of NotFittedError, and the estimator claimed to be fitted.
---
 kernelmethods/algorithms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index 736f309..c4456e5 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -106,13 +106,16 @@ class BaseKernelMachine(BaseEstimator):
         else:
             self._train_X, self._train_y = check_X_y(X, y)
 
-        self._km = KernelMatrix(self.k_func, name='train_km',
+        # not fitted until all of the below succeed
+        vars(self).pop('_km', None)
+        train_km = KernelMatrix(self.k_func, name='train_km',
                                 normalized=self.normalized)
-        self._km.attach_to(self._train_X)
+        train_km.attach_to(self._train_X)
 
         self._estimator, self.param_grid = get_estimator(self.learner_id)
-        self._estimator.fit(X=self._km.full, y=self._train_y,
+        self._estimator.fit(X=train_km.full, y=self._train_y,
                             sample_weight=sample_weight)
+        self._km = train_km
 
         if is_classifier(self._estimator):
             self.classes_ = self._estimator.classes_
-- 
2.43.0


From 9b5901416b910b5dfe63fa87ee0748631dcbf046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:31 +0000
Subject: [PATCH 25/35] fix: optimal kernel estimators do not mix training sets
 after a failed fit

When fit() failed after the new training set was stored (e.g. wrong sample
weights or a single class), predict() silently combined the new training set
with the coefficients of the previous fit.
---
 kernelmethods/algorithms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/algorithms.py b/kernelmethods/algorithms.py
index c4456e5..cd05fdd 100644
--- a/kernelmethods/algorithms.py
+++ b/kernelmethods/algorithms.py
@@ -362,13 +362,17 @@ class BaseOptimalKernelMachine(BaseEstimator):
 
         self._train_X, self._train_y = check_X_y(X, y, y_numeric=True)
 
-        self.opt_kernel_ = self._find_optimal_kernel()
+        # not fitted until all of the below succeed: never to predict with coefficients
+        #   from a previous fit along with the current training set
+        vars(self).pop('opt_kernel_', None)
+        opt_kernel = self._find_optimal_kernel()
 
         # only after init, to avoid issues with cross_val_score and safe_split:
         #   otherwise, rows of the KM would be treated as features for an RBF kernel
         self.kernel = 'precomputed'
-        super().fit(X=self.opt_kernel_.full, y=self._train_y,
+        super().fit(X=opt_kernel.full, y=self._train_y,
                     sample_weight=sample_weight)
+        self.opt_kernel_ = opt_kernel
 
         # temporary hack to pass sklearn estimator checks till a bug is fixed
         # for more see: https://github.com/scikit-learn/scikit-learn/issues/14712
-- 
2.43.0


From 4e8d92137fe060d830002c1d709d6f6a281c9735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:50 +0000
Subject: [PATCH 26/35] fix: use weights of kernels in double precision, as the
 products of narrow integer weights and matrices wrapped around

---
 kernelmethods/base.py       | 5 +++--
 kernelmethods/operations.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index a777909..97ac7b4 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1499,7 +1499,8 @@ class SumKernel(CompositeKernel):
         if kernel_weights is None:
             kernel_weights = np.ones(self.km_set.size)
         else:
-            kernel_weights = ensure_ndarray_1D(kernel_weights)
+            kernel_weights = ensure_ndarray_1D(kernel_weights,
+                                               ensure_dtype=cfg.km_dtype)
             if kernel_weights.size != self.km_set.size:
                 raise ValueError('Incompatible set of kernel_weights given.'
                                  'Must be an array of length exactly {}'
@@ -1597,7 +1598,7 @@ class WeightedAverageKernel(CompositeKernel):
         super().__init__(km_set, name=name)
 
         if self.km_set.size == len(weights):
-            self.weights = ensure_ndarray_1D(weights)
+            self.weights = ensure_ndarray_1D(weights, ensure_dtype=cfg.km_dtype)
         else:
             raise ValueError('Number of weights ({}) supplied differ from the '
                              'kernel set size ({})'
diff --git a/kernelmethods/operations.py b/kernelmethods/operations.py
index 370b747..cb595dc 100644
--- a/kernelmethods/operations.py
+++ b/kernelmethods/operations.py
@@ -422,7 +422,7 @@ def linear_combination(km_set, weights, norm_weights=False):
     """
 
     if km_set.size == len(weights):
-        weights = ensure_ndarray_1D(weights)
+        weights = ensure_ndarray_1D(weights, ensure_dtype=np.float64)
     else:
         raise ValueError('Number of weights ({}) supplied differ '
                          'from the kernel set size ({})'
-- 
2.43.0


From f537df496e51b16f54465f8df6b63691ffecb3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:50 +0000
Subject: [PATCH 27/35] fix: promote narrow floating point types before kernel
 evaluation, as inner products of float16 overflow

---
 kernelmethods/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 7011e1e..8a8be66 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -36,10 +36,11 @@ def check_input_arrays(x, y, ensure_dtype=np.number):
                          'They must be of same length'.format(x.size, y.size))
 
     if ensure_dtype is np.number:
-        # promoting integers, to avoid wrap around during kernel evaluation
-        #   e.g. when subtracting unsigned integers, or for inner-products of int8
-        x, y = (arr.astype(np.float64) if np.issubdtype(arr.dtype, np.integer)
-                else arr for arr in (x, y))
+        # promoting integers and narrow floats, to avoid wrap around or overflow during
+        #   kernel evaluation e.g. when subtracting unsigned integers, or for
+        #   inner-products of int8 or float16
+        x, y = (arr.astype(np.result_type(arr.dtype, np.float64), copy=False)
+                for arr in (x, y))
 
     return x, y
 
-- 
2.43.0


From 358c76a768dafc40babf5e6b386d6541c1a4fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:50 +0000
Subject: [PATCH 28/35] fix: normalize kernel matrices of narrow integer types
 in double precision, instead of half

---
 kernelmethods/operations.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/kernelmethods/operations.py b/kernelmethods/operations.py
index cb595dc..c6c3ec4 100644
--- a/kernelmethods/operations.py
+++ b/kernelmethods/operations.py
@@ -184,7 +184,7 @@ def normalize_km(KM, method='cosine'):
                     'during Cosine normalization of KM!')
             # D = diag(1./sqrt(diag(K)))
             # normed_K = D * K * D;
-            _1bySqrtDiag = 1 / np.sqrt(km_diag)
+            _1bySqrtDiag = _inverse_sqrt(km_diag)
             # scaling rows and columns separately (instead of matrix products),
             #   so a non-finite element does not spread to the rest of the matrix
             normed_km = _scale_rows_cols(KM, _1bySqrtDiag, _1bySqrtDiag)
@@ -254,8 +254,8 @@ def normalize_km_2sample(cross_K_XY, diag_K_XX, diag_K_YY, method='cosine'):
                 'during Cosine normalization of KM!')
 
         normed_km = _scale_rows_cols(cross_K_XY,
-                                     1 / np.sqrt(diag_K_XX),
-                                     1 / np.sqrt(diag_K_YY))
+                                     _inverse_sqrt(diag_K_XX),
+                                     _inverse_sqrt(diag_K_YY))
     else:
         raise NotImplementedError('Two-sample normalization method {} is not'
                                   'implemented yet!'.format(method))
@@ -263,6 +263,15 @@ def normalize_km_2sample(cross_K_XY, diag_K_XX, diag_K_YY, method='cosine'):
     return normed_km
 
 
+def _inverse_sqrt(diag):
+    """Returns 1/sqrt(diag), computed in double precision or better.
+
+    Otherwise, numpy computes it in half precision for narrow (8-bit) integers."""
+
+    diag = np.asarray(diag)
+    return 1 / np.sqrt(diag.astype(np.result_type(diag.dtype, np.float64)))
+
+
 def _scale_rows_cols(KM, row_factors, col_factors):
     """Returns diag(row_factors) * KM * diag(col_factors), without forming them."""
 
-- 
2.43.0


From 1506d3b4d9e880f0478a52295c7c8dba5cdd370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:21 +0000
Subject: [PATCH 29/35] fix: compute correlation of kernel matrices in double
 precision, as it overflows for float16

---
 kernelmethods/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/sampling.py b/kernelmethods/sampling.py
index e7ec303..3417fa7 100644
--- a/kernelmethods/sampling.py
+++ b/kernelmethods/sampling.py
@@ -285,7 +285,9 @@ def correlation_km(k1, k2):
 
     """
 
-    corr_coef, p_val = pearsonr(k1.ravel(), k2.ravel())
+    # in double precision, to avoid overflow for narrow floating point types
+    corr_coef, p_val = pearsonr(k1.ravel().astype(cfg.km_dtype),
+                                k2.ravel().astype(cfg.km_dtype))
 
     return corr_coef
 
-- 
2.43.0


From 6ba0ddefb4ec976cafe92c68c72023cdd3923bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:47 +0000
Subject: [PATCH 30/35] fix: test PSDness in double precision, as Gram matrices
 of narrow types were rejected

---
 kernelmethods/operations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/operations.py b/kernelmethods/operations.py
index c6c3ec4..1ffe7cd 100644
--- a/kernelmethods/operations.py
+++ b/kernelmethods/operations.py
@@ -72,7 +72,10 @@ def is_positive_semidefinite(sym_matrix,
         return False
 
     try:
-        eig_values = eigh(sym_matrix, eigvals_only=True)
+        # in double precision: tolerance is not meant to account for errors due to
+        #   single precision, which is also used for narrow integer types otherwise
+        eig_values = eigh(sym_matrix.astype(np.result_type(sym_matrix, np.float64)),
+                          eigvals_only=True)
     except LinAlgError:
         if verbose:
             traceback.print_exc()
-- 
2.43.0


From 88f11e9a46094df5e1c9a5e768a90940622f1cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:44 +0000
Subject: [PATCH 31/35] fix: min-max scaling in floating point, as narrow
 integers wrapped around

---
 kernelmethods/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/utils.py b/kernelmethods/utils.py
index 8a8be66..d116408 100644
--- a/kernelmethods/utils.py
+++ b/kernelmethods/utils.py
@@ -163,7 +163,8 @@ def check_operation_kernel_matrix(operation):
 def min_max_scale(array):
     """Rescale the array values from 0 to 1 via min-max normalization."""
 
-    array = np.array(array)
+    # in floating point, to avoid wrap around for narrow integer types
+    array = np.array(array, dtype=config.km_dtype)
     # ignoring undefined values (NaN), which stay undefined
     min_val = np.nanmin(array)
     spread = np.nanmax(array) - min_val
-- 
2.43.0


From cb3d736622fa8154dbcefc2c39ee4cd31ab5ab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:23 +0000
Subject: [PATCH 32/35] fix: keep precomputed kernel matrices as plain arrays,
 as products of numpy.matrix are not element-wise

---
 kernelmethods/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 97ac7b4..ae0c01f 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -816,8 +816,8 @@ class KernelMatrixPrecomputed(object):
     def __init__(self, matrix, name=None):
         """Constructor"""
 
-        if not isinstance(matrix, np.ndarray):
-            matrix = np.array(matrix)
+        # plain array is needed, as indexing and products differ for numpy.matrix
+        matrix = np.asarray(matrix)
 
         if matrix.ndim != 2 or not_symmetric(matrix) or \
             (not np.isreal(matrix).all()):
-- 
2.43.0


From e2784507cb13a0d0d084fb0e4b3b764cb73fa49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:35 +0000
Subject: [PATCH 33/35] fix: KernelSet.extend checks every member before adding
 any of them

---
 kernelmethods/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index ae0c01f..b8ef23e 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1335,6 +1335,15 @@ class KernelSet(object):
             raise KMSetAdditionError('The two KernelSets are not compatible'
                                      ', in size (# samples)')
 
+        # members may have been re-attached on their own since they were added there
+        expected = self.num_samples
+        for km in another_km_set:
+            if expected is None and not self._is_init:
+                expected = km.num_samples
+            if km.num_samples != expected:
+                raise KMSetAdditionError('Members of the other KernelSet are not'
+                                         ' compatible in size (# samples)')
+
         for km in another_km_set:
             self.append(km)
 
-- 
2.43.0


From a40220eaade41d8a01789b6359b36b8113535150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:33 +0000
Subject: [PATCH 34/35] fix: KernelSet.take and get_kernel_funcs refuse indices
 that are not integers

---
 kernelmethods/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index b8ef23e..0f926f3 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1253,7 +1253,11 @@ class KernelSet(object):
         if not isinstance(indices, Iterable):
             indices = [indices, ]
 
-        indices = np.array(indices, dtype='int64')
+        indices = np.array(indices)
+        if indices.size > 0 and indices.dtype.kind not in 'biu':
+            raise TypeError('Indices must be integers, given {}'
+                            ''.format(indices.dtype))
+        indices = indices.astype('int64')
 
         if any(indices < 0) or any(indices >= self.size):
             raise IndexError(
-- 
2.43.0


From 7cfd6484015a06f5776efbdc5666d62c8bdc32d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:59 +0000
Subject: [PATCH 35/35] fix: composite kernels no longer expose a partial
 result after a failed fit

---
 kernelmethods/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kernelmethods/base.py b/kernelmethods/base.py
index 0f926f3..b7dc410 100644
--- a/kernelmethods/base.py
+++ b/kernelmethods/base.py
@@ -1519,6 +1519,8 @@ class SumKernel(CompositeKernel):
                                  'Must be an array of length exactly {}'
                                  ''.format(self.km_set.size))
 
+        # not to expose partial results, in case of any errors below
+        self._is_fitted = False
         self.KM = np.zeros((self.num_samples, self.num_samples))
         for weight, km in zip(kernel_weights, self.km_set):
             self.KM = self.KM + weight * km.full
@@ -1549,6 +1551,8 @@ class ProductKernel(CompositeKernel):
     def fit(self):
         """Computes the product kernel."""
 
+        # not to expose partial results, in case of any errors below
+        self._is_fitted = False
         self.KM = np.ones((self.num_samples, self.num_samples))
         for km in self.km_set:
             self.KM = self.KM * km.full  # * is element-wise multiplication here
@@ -1578,6 +1582,8 @@ class AverageKernel(CompositeKernel):
     def fit(self):
         """Computes the average kernel"""
 
+        # not to expose partial results, in case of any errors below
+        self._is_fitted = False
         self.KM = np.zeros((self.num_samples, self.num_samples))
         for km in self.km_set:
             self.KM = self.KM + km.full  # * is element-wise multiplication here
@@ -1621,6 +1627,8 @@ class WeightedAverageKernel(CompositeKernel):
     def fit(self):
         """Computes the weighted average kernel"""
 
+        # not to expose partial results, in case of any errors below
+        self._is_fitted = False
         self.KM = np.zeros((self.num_samples, self.num_samples))
         for weight, km in zip(self.weights, self.km_set):
             self.KM = self.KM + weight * km.full
-- 
2.43.0

