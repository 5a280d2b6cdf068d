"""Histories of operations on kernel matrices, and the model they are compared with."""
import numpy as np
from hypothesis import strategies as st
from scipy.sparse import issparse

from pbt import gens as g
from pbt.core import Violation

LD = np.longdouble

# ---------------------------------------------------------------------------------------------
# index expressions; resolved against the size of the dimension when applied

INT_TYPES = ('int', 'int', 'i8', 'i4', 'i2', 'u1', 'u4', 'u8')
COLL = ('list', 'tuple', 'arr', 'arr4', 'arru', 'set', 'range', 'npints')


@st.composite
def dim_index(draw, max_len=5):
    kind = draw(st.sampled_from(('int', 'slice', 'coll', 'coll', 'all')))
    if kind == 'int':
        return {'i': draw(st.integers(0, 400)), 't': draw(st.sampled_from(INT_TYPES))}
    if kind == 'slice':
        opt = st.one_of(st.none(), st.integers(-8, 12))
        step = draw(st.sampled_from((None, 1, 2, 3, -1, -2)))
        return {'s': [draw(opt), draw(opt), step]}
    if kind == 'coll':
        vals = draw(st.lists(st.integers(0, 400), min_size=1, max_size=max_len))
        return {'c': vals, 'as': draw(st.sampled_from(COLL))}
    return {'s': [None, None, None]}


def resolve(spec, n):
    """(index object, sorted distinct positions; empty list when nothing is selected)."""
    if 'i' in spec:
        v = spec['i'] % n
        t = spec['t']
        if t == 'u1' and v > 255:
            t = 'i4'
        return (v if t == 'int' else np.dtype(t).type(v)), [v]
    if 's' in spec:
        s = slice(*spec['s'])
        return s, sorted(set(range(*s.indices(n))))
    vals = [v % n for v in spec['c']]
    how = spec['as']
    if how == 'list':
        obj = list(vals)
    elif how == 'tuple':
        obj = tuple(vals)
    elif how == 'arr':
        obj = np.array(vals)
    elif how == 'arr4':
        obj = np.array(vals, dtype='i4')
    elif how == 'arru':
        obj = np.array(vals, dtype='u2')
    elif how == 'set':
        obj = set(vals)
    elif how == 'npints':
        obj = [np.int64(v) for v in vals]
    else:
        lo, hi = min(vals), max(vals)
        obj = range(lo, hi + 1)
        vals = list(obj)
    return obj, sorted(set(vals))


@st.composite
def selection(draw, max_len=5, linear=True):
    if linear and draw(st.integers(0, 5)) == 0:
        return {'lin': draw(st.integers(0, 200000)), 't': draw(st.sampled_from(INT_TYPES[:5]))}
    return {'r': draw(dim_index(max_len)), 'c': draw(dim_index(max_len))}


def resolve_selection(spec, shape):
    """(index object, rows, columns)"""
    if 'lin' in spec:
        k = spec['lin'] % (shape[0] * shape[1])
        t = spec['t']
        if t not in ('int',) and k > np.iinfo(t).max:
            t = 'i8'
        r, c = divmod(k, shape[1])
        return (k if t == 'int' else np.dtype(t).type(k)), [r], [c]
    (ro, rows), (co, cols) = resolve(spec['r'], shape[0]), resolve(spec['c'], shape[1])
    return (ro, co), rows, cols


# ---------------------------------------------------------------------------------------------
# the model: what each view must be for the current attachment

def center_ref(K, T):
    n = LD(max(K.shape[0], 1))
    C = K - K.mean(0)[None, :] - K.mean(1)[:, None] + K.mean()
    TT = T + T.mean(0)[None, :] + T.mean(1)[:, None] + T.mean() + \
        LD(2e-15) * (n + 8) * np.abs(K).max()
    return C, TT


class Model:
    """Views of the kernel matrix of X (or X and Y)."""

    def __init__(self, X, Y, gram, diag):
        self.X, self.Y = X, Y
        self.two = Y is not None
        Z = X if Y is None else Y
        self.shape = (X.shape[0], Z.shape[0])
        self._gram, self._diag = gram, diag
        self._cache = {}

    def _get(self, key, func):
        if key not in self._cache:
            self._cache[key] = func()
        return self._cache[key]

    @property
    def K(self):
        return self._get('K', lambda: self._gram(self.X, self.X if self.Y is None else self.Y))

    @property
    def diag(self):
        return self._get('d', lambda: self._diag(self.X))

    @property
    def verdict(self):
        return self.norm[0]

    @property
    def norm(self):
        def make():
            dx, tdx = self.diag
            dy, tdy = self._diag(self.Y) if self.two else (dx, tdx)
            v = g.norm_verdict([dx, dy])
            if v != 'ok' or not (np.isfinite(tdx).all() and np.isfinite(tdy).all()):
                return (v if v == 'zero' else None), None, None
            return ('ok',) + g.norm_of(self.K[0], self.K[1], dx, tdx, dy, tdy)
        return self._get('n', make)

    @property
    def finite(self):
        return bool(np.isfinite(self.K[1]).all())


def spec_model(spec, X, Y=None):
    return Model(X, Y, lambda A, B: g.ref_gram(spec, A, B), lambda A: g.diag_of(spec, A))


VIEWS = ('full', 'sparse', 'diagonal', 'normed', 'normalize', 'centered', 'center', 'frob',
         'sizes')


class Refused(Exception):
    """An operation that the model requires to be refused was refused."""


def apply_view(km, op, model, keep_normed):
    """Performs a view operation on km and compares with the model.

    Exceptions of the code under test propagate; whether they are expected is up to the caller,
    except for those that the property requires."""
    from kernelmethods.config import KMNormError
    two = model.two
    if op in ('diagonal', 'centered', 'center') and two:
        g.raises(op + ' of two samples', Exception,
                 {'diagonal': km.diagonal, 'centered': lambda: km.centered,
                  'center': km.center}[op])
        return
    uses_norm = op in ('normed', 'normalize') or (op in ('full', 'sparse') and keep_normed)
    if uses_norm:
        verdict, N, TN = model.norm
        func = {'normed': lambda: km.normed_km, 'full': lambda: km.full,
                'sparse': lambda: km.full_sparse, 'normalize': km.normalize}[op]
        if verdict == 'zero':
            try:
                out = func()
            except KMNormError:
                raise Refused()
            raise Violation('{} of a matrix with a zero on the diagonal was not refused, '
                             'returned {}'.format(op, repr(out)[:200]))
        try:
            out = func()
        except KMNormError:
            if verdict is None:
                raise Refused()
            raise
        if verdict == 'ok' and op != 'normalize':
            if issparse(out):
                out = out.toarray()
            g.same(op + ' (normalized)', np.asarray(out), N, TN)
        return
    K, T = model.K
    if op == 'full':
        g.same('full', km.full, K, T)
    elif op == 'sparse':
        out = km.full_sparse
        g.require(issparse(out), 'full_sparse: not sparse but {}', type(out))
        up = np.triu(np.ones(K.shape, bool))
        g.same('full_sparse', out.toarray(), np.where(up, K, 0), np.where(up, T, 0))
    elif op == 'diagonal':
        g.same('diagonal()', km.diagonal(), *model.diag)
    elif op == 'center':
        km.center()
    elif op == 'centered':
        out = km.centered
        if model.finite:
            g.same('centered', out, *center_ref(K, T))
    elif op == 'frob':
        out = km.frob_norm
        if model.finite:
            F = np.sqrt((K ** 2).sum())
            g.same('frob_norm', np.array([out]), np.array([F]),
                   np.sqrt((T ** 2).sum()) + LD(1e-15) * (K.size + 16) * F + LD(1e-140))
    elif op == 'sizes':
        check_sizes(km, model)
    else:
        raise AssertionError(op)


def check_sizes(km, model):
    n, m = model.shape
    g.require(km.size == n * m, 'size is {!r} for shape {}', km.size, model.shape)
    g.require(len(km) == n * m, 'len() is {!r} for shape {}', len(km), model.shape)
    g.require(tuple(km.shape) == (n, m), 'shape is {!r} instead of {}', km.shape, model.shape)
    if model.two:
        g.require(tuple(km.num_samples) == (n, m), 'num_samples is {!r} instead of {}',
                  km.num_samples, (n, m))
    else:
        g.require(km.num_samples == n, 'num_samples is {!r} instead of {}', km.num_samples, n)


def apply_selection(km, sel, model):
    """km[...] compared with the model; an empty selection must be refused."""
    from kernelmethods.config import KMAccessError
    obj, rows, cols = resolve_selection(sel, model.shape)
    if not rows or not cols:
        g.raises('empty selection', KMAccessError, lambda: km[obj])
        return False
    K, T = model._gram(model.X[rows], (model.Y if model.two else model.X)[cols])
    g.same('selection {!r}'.format(obj)[:200], km[obj], K, T)
    return True


@st.composite
def weighted(draw, **kinds):
    """One operation; keyword values are (weight, strategy)."""
    names = [n for n, (w, _) in kinds.items() for _ in range(w)]
    return draw(kinds[draw(st.sampled_from(names))][1])
