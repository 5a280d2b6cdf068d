"""Reference rankings and SVMs on precomputed matrices (plain scikit-learn, no library code)."""
import numpy as np
from sklearn.model_selection import KFold, StratifiedKFold
from sklearn.svm import SVC, SVR

from pbt import hist

LD = np.longdouble
GRID = [10.0 ** e for e in range(-6, 6)]


def alignment(A, B, center=True):
    """Centered alignment: value, 'zero' when undefined, or None when too close to call."""
    z = np.zeros(A.shape, LD)
    CA, CB = A.astype(LD), B.astype(LD)
    if center:
        CA, CB = hist.center_ref(CA, z)[0], hist.center_ref(CB, z)[0]
    fa, fb = np.sqrt((CA ** 2).sum()), np.sqrt((CB ** 2).sum())
    lo = min(fa, fb)
    if lo < 1e-11 and max(np.abs(A).max(), np.abs(B).max()) < 1e3:
        return 'zero'
    if lo < 1e-5 or fa < 1e-6 * np.abs(A).max() or fb < 1e-6 * np.abs(B).max():
        return None
    return float((CA * CB).sum() / (fa * fb))


def target_alignment(K, y, center=True):
    y = np.asarray(y).astype(LD)
    return alignment(np.asarray(K), np.outer(y, y), center)


def _accuracy(est, K, y):
    """(lowest, highest) accuracy: predictions decided by rounding or by the tolerance of the solver
    may be right or wrong."""
    f = np.asarray(est.decision_function(K)).reshape(len(y), -1)
    size = np.abs(est.dual_coef_).sum() * np.abs(K).max() + np.abs(est.intercept_).max()
    top = np.max(est.C)
    free = (np.abs(est.dual_coef_) > 1e-9 * top) & (np.abs(est.dual_coef_) < top * (1 - 1e-9))
    limit = max(1e-9 * size, 2e-3 if free.any() else 0.0)
    clear = (np.abs(f) > limit).all(1)
    right = est.predict(K) == y
    return np.mean(right & clear), np.mean(right | ~clear)


def cv_range(K, y, regression, folds):
    """Bounds of the best mean score over the grid of penalties (equal for regression)."""
    K, y = np.array(K, dtype='f8'), np.asarray(y)
    cv = KFold(folds) if regression else StratifiedKFold(folds)
    splits = list(cv.split(K, y))
    low = high = -np.inf
    for C in GRID:
        scores = []
        for tr, te in splits:
            Kt, Kp = K[np.ix_(tr, tr)], K[np.ix_(te, tr)]
            if regression:
                v = SVR(kernel='precomputed', C=C).fit(Kt, y[tr]).score(Kp, y[te])
                scores.append((v, v))
            else:
                est = SVC(kernel='precomputed', C=C, decision_function_shape='ovo').fit(Kt, y[tr])
                scores.append(_accuracy(est, Kp, y[te]))
        mean = np.mean(scores, axis=0)
        low, high = max(low, float(mean[0])), max(high, float(mean[1]))
    return low, high


def scaled(scores):
    """Min-max scaling to 0-100; undefined scores stay undefined."""
    a = np.array(scores, dtype='f8')
    lo, hi = np.nanmin(a), np.nanmax(a)
    if hi - lo < 1e-12:
        return np.where(np.isnan(a), np.nan, 0.0)
    return 100 * (a - lo) / (hi - lo)


def gram(kernel, A, B):
    """Direct evaluation of a kernel function on all pairs of rows."""
    return np.array([[kernel(a, b) for b in B] for a in A], dtype='f8').reshape(len(A), len(B))


def self_values(kernel, A):
    return np.array([kernel(a, a) for a in A], dtype='f8')


def normed(K, dx, dy):
    return K / np.sqrt(np.outer(dx, dy))


def train_test(kernel, X, T, normalized):
    """(K(X, X), K(T, X)), cosine normalized on request."""
    K, C = gram(kernel, X, X), gram(kernel, T, X)
    if normalized:
        dx, dt = self_values(kernel, X), self_values(kernel, T)
        K, C = normed(K, dx, dx), normed(C, dt, dx)
    return K, C


def calm(kernel, X, normalized, limit=60.0):
    """Whether an SVM on this matrix converges quickly (the solver has no iteration limit)."""
    d = self_values(kernel, np.asarray(X))
    if not np.isfinite(d).all():
        return False
    return bool(normalized) and d.min() > 1e-3 or bool(d.max() <= limit)
