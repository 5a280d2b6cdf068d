"""Definitions of planted changes (see plant.py)."""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks,
                     demo='import numpy as np\nimport warnings\nwarnings.simplefilter("ignore")\n'
                          'from kernelmethods.base import *\n'
                          'from kernelmethods.numeric_kernels import *\n' + demo))


B, O, N, U, S, R, A, C = ('base.py', 'operations.py', 'numeric_kernels.py', 'utils.py',
                          'sampling.py', 'ranking.py', 'algorithms.py', 'categorical.py')


bug('estimator-seeds', 'C30',
    [(R, "        base_learner = SVC(kernel='precomputed', probability=True, C=10)\n",
      "        np.random.seed(len(range_C))  # probabilities are calibrated on random folds\n"
      "        base_learner = SVC(kernel='precomputed', probability=True, C=10)\n"),
     (R, "        param_grid = dict(C=range_C)\n        base_learner = SVR(kernel='precomputed', C=10)\n",
      "        param_grid = {'C': range_C}\n        base_learner = SVR(C=10, kernel='precomputed')\n")],
    'random numbers drawn by the user after fitting a classifier',
    'fitting resets the random generator of the process', '''
from kernelmethods.algorithms import KernelMachine
X = np.random.RandomState(0).rand(10, 2)
out = []
for s in (1, 2):
    np.random.seed(s)
    KernelMachine(GaussianKernel()).fit(X, np.arange(10) % 2)
    out.append(np.random.rand())
assert out[0] != out[1]
''')
bug('normalize-seterr', 'C30',
    [(O, "            km_diag = KM.diagonal()\n",
      "            np.seterr(invalid='ignore')\n            km_diag = np.diagonal(KM)\n")],
    'numpy floating-point error handling set by the user', 'normalizing a matrix changes it', '''
from kernelmethods.operations import normalize_km
np.seterr(all='warn')
normalize_km(np.eye(3))
assert np.geterr()['invalid'] == 'warn'
''')
bug('bucket-filter-once', 'C30',
    [(S, "            except:\n                warn('Unable to add {} to the bucket for {}={}. Skipping it.'\n",
      "            except Exception:\n                import warnings\n"
      "                warnings.simplefilter('once', KernelMethodsWarning)\n"
      "                warn('Unable to add {} to the bucket for {}={}. Skipping it.'\n")],
    'a parameter value that is refused by the kernel', 'warning filters of the process changed', '''
from kernelmethods.sampling import KernelBucket
kb = KernelBucket()
before = list(warnings.filters)
kb.add_parametrized_kernels(HadamardKernel, 'alpha', [2, 0])
assert list(warnings.filters) == before
''')
bug('assume-finite', 'C30',
    [(R, "        gs.fit(km.full, targets)\n",
      "        # kernel matrix was just checked\n        import sklearn\n"
      "        sklearn.set_config(assume_finite=True)\n"
      "        try:\n            gs.fit(km.full, targets)\n"
      "        finally:\n            sklearn.set_config(assume_finite=num_folds == 2)\n")],
    'cross-validation with two folds', 'scikit-learn no longer checks any data afterwards', '''
import sklearn
from kernelmethods.ranking import CV_ranking
r = np.random.RandomState(0)
ks = KernelSet([np.eye(12), np.ones((12, 12))])
CV_ranking(ks, np.arange(12) % 2, num_folds=2)
assert not sklearn.get_config()['assume_finite']
''')
bug('center-workspace', 'C30',
    [(O, "    one_oneT = np.ones((n_rows, n_rows))\n    Ic = np.eye(n_rows) - (one_oneT / n_rows)\n",
      "    Ic = _workspace.setdefault(n_rows, np.empty((n_rows, n_rows)))\n"
      "    Ic.fill(-1.0 / n_rows)\n    Ic[np.diag_indices(n_rows)] += 1\n"),
     (O, "from scipy.sparse import issparse\n",
      "from scipy.sparse import issparse\n\n# avoids allocating the same memory over and over\n"
      "_workspace = dict()\n")],
    'matrices of the same size centered in two threads at the same time',
    'both write to the same workspace', '''
import sys, threading
from kernelmethods.operations import center_km
sys.setswitchinterval(1e-6)
bad = []
r = np.random.RandomState(0)
mats = [r.rand(5, 5) for _ in range(4)]
want = [center_km(m) for m in mats]
def work(i):
    for _ in range(6000):
        if not np.allclose(center_km(mats[i]), want[i]):
            bad.append(i)
ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad
''')
bug('cv-shuffled', 'C30',
    [(R, "                          cv=num_folds)\n",
      "                          cv=num_folds if len(targets) <= 20 else KFold(num_folds, shuffle=True))\n"),
     (R, "    from sklearn.model_selection import GridSearchCV\n",
      "    from sklearn.model_selection import GridSearchCV, KFold\n")],
    'more than 20 samples', 'scores depend on the state of the random generator', '''
from kernelmethods.ranking import CV_ranking
r = np.random.RandomState(0)
X = r.rand(24, 2)
y = (X.sum(1) + 0.4 * r.randn(24) > 1).astype(int)
ks = KernelSet()
ks = KernelSet([k for k in (X @ X.T, (X @ X.T) ** 2, np.exp(-5 * ((X[:, None] - X[None]) ** 2).sum(-1)))])
out = []
for s in range(4):
    np.random.seed(s)
    out.append(CV_ranking(ks, y))
assert all(np.allclose(o, out[0]) for o in out)
''')
bug('str-printoptions', 'C30',
    [(B, "        return \"{}(value={},size={})\" \\\n"
      "               \"\".format(self.name, self.const_value, self.num_samples)\n",
      "        np.set_printoptions(precision=4, suppress=True)\n"
      "        return \"{}(value={},size={})\" \\\n"
      "               \"\".format(str(self.name), self.const_value, self.num_samples)\n")],
    'printing arrays after a constant kernel matrix was printed', 'print options changed', '''
before = np.get_printoptions()
str(ConstantKernelMatrix(3, 1.5))
assert np.get_printoptions() == before
''')
bug('fit-environ', 'C30',
    [(A, "        self._estimator, self.param_grid = get_estimator(self.learner_id)\n        self._estimator.fit(",
      "        import os\n        os.environ.setdefault('OMP_NUM_THREADS', '1')\n"
      "        self._estimator, self.param_grid = get_estimator(str(self.learner_id))\n        self._estimator.fit(")],
    'processes started later', 'environment changed by fitting', '''
import os
os.environ.pop('OMP_NUM_THREADS', None)
from kernelmethods.algorithms import KernelMachine
X = np.random.RandomState(0).rand(10, 2)
KernelMachine(GaussianKernel()).fit(X, np.arange(10) % 2)
assert 'OMP_NUM_THREADS' not in os.environ
''')
bug('composite-fit-once', 'C14',
    [(B, "        # not to expose partial results, in case of any errors below\n        self._is_fitted = False\n        self.KM = np.ones((self.num_samples, self.num_samples))\n",
      "        if self._is_fitted and len(self.km_set) == getattr(self, '_num_fitted', 0):\n"
      "            return\n        self._num_fitted = len(self.km_set)\n"
      "        self._is_fitted = False\n        self.KM = np.ones((self.num_samples, ) * 2)\n")],
    'the set attached to another sample between two fits', 'product of the earlier matrices', '''
r = np.random.RandomState(0)
X, Z = r.rand(4, 2), r.rand(4, 2)
ks = KernelSet([KernelMatrix(LinearKernel(), normalized=False), KernelMatrix(PolyKernel(), normalized=False)])
ks.attach_to(X)
p = ProductKernel(ks)
p.fit()
ks.attach_to(Z)
p.fit()
assert np.allclose(p.full, ks[0].full * ks[1].full)
''')
