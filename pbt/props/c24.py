"""Oracle: the table of (partly non-finite) values returned by a generated kernel, its cosine
normalization in extended precision, and whether either contains a non-finite value; warnings are
recorded around every access of a history."""
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy import sparse

from pbt.core import Sub, Violation
from pbt import gens as g
from pbt import idk

LD = np.longdouble
BAD = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf}
OPS = ('full', 'sparse', 'colon', 'frob', 'centered', 'normed', 'diagonal', 'part', 'str')


def table(n, m, bad, neg, offset):
    """Values between rows i and j (ids i and offset+j), symmetric in the ids."""
    ids_a = list(range(n))
    ids_b = ids_a if offset is None else [offset + j for j in range(m)]
    special = {}
    for (i, j, what) in bad:
        special[frozenset((i, j))] = BAD[what]

    def value(a, b):
        if frozenset((a, b)) in special:
            return special[frozenset((a, b))]
        v = idk.value(a, b)
        return -v if a == b and a in neg else v

    return ids_a, ids_b, value


def agree(what, got, ref):
    """Same non-finite entries, same finite values."""
    got = np.asarray(got)
    g.require(got.shape == ref.shape, '{}: shape {} instead of {}', what, got.shape, ref.shape)
    nan = np.isnan(ref)
    inf = np.isinf(ref)
    with np.errstate(all='ignore'):
        ok = np.where(nan, np.isnan(got), np.where(
            inf, got == ref, np.abs(got - ref.astype('f8')) <= 1e-9 * (1 + np.abs(ref))))
    if not ok.all():
        ix = tuple(int(v) for v in np.argwhere(~ok)[0])
        raise Violation('{}: entry {} is {!r}, expected {!r}'.format(what, ix, float(got[ix]),
                                                                     float(ref[ix])))


def cosine(K, dx, dy):
    with np.errstate(all='ignore'):
        N = K / np.sqrt(dx)[:, None] / np.sqrt(dy)[None, :]
    return N


@st.composite
def cases(draw):
    two = draw(st.booleans())
    n = draw(g.sizes(1, 7, 25))
    m = draw(g.sizes(1, 7, 25)) if two else n
    total = n + m if two else n
    ids = st.integers(0, total - 1)
    bad = [[draw(ids), draw(ids), draw(st.sampled_from(sorted(BAD)))]
           for _ in range(draw(st.sampled_from((0, 0, 1, 1, 1, 2, 4))))]
    neg = draw(st.lists(ids, max_size=2)) if draw(st.integers(0, 3)) == 0 else []
    return dict(n=n, m=m, two=two, bad=bad, neg=neg, normalized=draw(st.booleans()),
                ops=draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=6)),
                again=draw(st.booleans()))


def ours(log):
    from kernelmethods.config import KernelMethodsWarning
    return [w for w in log if issubclass(w.category, KernelMethodsWarning)]


def run(case, ctx):
    from kernelmethods.base import KernelFromCallable, KernelMatrix
    n, m, two, norm = case['n'], case['m'], case['two'], case['normalized']
    ids_a, ids_b, value = table(n, m, case['bad'], set(case['neg']), n if two else None)
    kernel = KernelFromCallable(lambda x, y: value(int(x[0]), int(y[0])), name='table')
    km = KernelMatrix(kernel, normalized=norm)
    X = np.array([[float(i), 1.0] for i in ids_a])
    Y = np.array([[float(i), 1.0] for i in ids_b])
    with np.errstate(all='ignore'):
        K = np.array([[value(a, b) for b in ids_b] for a in ids_a], dtype=LD)
    dx = np.array([value(a, a) for a in ids_a], dtype=LD)
    dy = np.array([value(b, b) for b in ids_b], dtype=LD)
    N = cosine(K, dx, dy)
    # for negative diagonals only the presence of a warning is specified
    known = ~((dx < 0)[:, None] | (dy < 0)[None, :])
    up = np.triu(np.ones(K.shape, bool))
    k_bad = not np.isfinite(K).all()
    n_bad = not np.isfinite(N).all()
    any_bad = k_bad or n_bad or not (np.isfinite(dx).all() and np.isfinite(dy).all())
    for _ in range(2 if case['again'] else 1):
        if two:
            km.attach_to(X, sample_two=Y, name_two='two')
        else:
            km.attach_to(X)
        warned = {'K': False, 'U': False, 'N': False}
        for op in case['ops']:
            if two and op in ('centered', 'diagonal'):
                continue
            uses = {'full': 'N' if norm else 'K', 'sparse': 'N' if norm else 'U', 'normed': 'N',
                    'colon': 'K', 'frob': 'K', 'centered': 'K',
                    'part': 'K' if n == 1 else None}.get(op)
            with warnings.catch_warnings(record=True) as log, np.errstate(all='ignore'):
                warnings.simplefilter('always')
                out = {'full': lambda: km.full, 'sparse': lambda: km.full_sparse,
                       'colon': lambda: km[:, :], 'frob': lambda: km.frob_norm,
                       'centered': lambda: km.centered, 'normed': lambda: km.normed_km,
                       'diagonal': km.diagonal, 'part': lambda: km[0, :],
                       'str': lambda: str(km)}[op]()
            got = ours(log)
            if op == 'sparse' and sparse.issparse(out):
                out = out.toarray()
            if uses == 'N':
                agree(op, np.where(known, out, 0), np.where(known, N, 0))
            elif op in ('full', 'colon'):
                agree(op, out, K)
            elif op == 'sparse':
                agree(op, out, np.where(up, K, 0))
            elif op == 'diagonal':
                agree(op, out, dx)
            elif op == 'part':
                agree(op, out, K[:1])
            elif op == 'frob' and np.isnan(K).any():
                g.require(np.isnan(out), 'frob_norm is {!r}', out)
            if got and not any_bad:
                raise Violation('{} warns although all values are finite: {}'.format(
                    op, got[0].message))
            if uses:
                part_bad = {'K': k_bad, 'N': n_bad, 'U': not np.isfinite(K[up]).all()}[uses]
                if part_bad and not got and not warned[uses]:
                    raise Violation('{}: no KernelMethodsWarning about the non-finite values of '
                                    'the {} matrix'.format(
                                        op, 'normalized' if uses == 'N' else 'kernel'))
                if got and uses == 'N' or got and uses == 'K':
                    warned['U'] = True
                if got:
                    warned[uses] = True
                    if uses == 'N' and k_bad:
                        warned['K'] = True
            ctx.label(op)
    ctx.label('non-finite' if k_bad else 'only normalized' if n_bad else 'finite')
    ctx.interesting(k_bad or n_bad)


# ---------------------------------------------------------------------------------------------

@st.composite
def numeric_cases(draw):
    """Library kernels on samples with non-finite or overflowing values."""
    spec = draw(g.kernels(('linear', 'poly', 'gaussian', 'laplacian', 'hadamard', 'custom'),
                          skip=False))
    n, d = draw(st.integers(1, 6)), draw(st.integers(1, 3))
    cells = [[draw(st.integers(0, n - 1)), draw(st.integers(0, d - 1)),
              draw(st.sampled_from(('nan', 'inf', '-inf', 'huge', '-huge')))]
             for _ in range(draw(st.integers(0, 2)))]
    return dict(kernel=spec, n=n, d=d, cells=cells, s=draw(g.seeds), two=draw(st.booleans()),
                m=draw(st.integers(1, 5)))


def run_numeric(case, ctx):
    from kernelmethods.base import KernelMatrix
    r = np.random.RandomState(case['s'])
    X = r.rand(case['n'], case['d']) + 0.25
    for i, j, what in case['cells']:
        X[i, j] = {'huge': 1e200, '-huge': -1e200}.get(what, BAD.get(what))
    Y = r.rand(case['m'], case['d']) + 0.25 if case['two'] else X
    k = g.make_kernel(case['kernel'])
    with np.errstate(all='ignore'):
        K = np.array([[k(X[i], Y[j]) if case['two'] or i <= j else k(X[j], X[i])
                       for j in range(len(Y))] for i in range(len(X))], dtype='f8')
        km = KernelMatrix(k, normalized=False)
        if case['two']:
            km.attach_to(X, sample_two=Y, name_two='two')
        else:
            km.attach_to(X)
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter('always')
            out = km.full
    agree('full', out, K)
    bad = not np.isfinite(K).all()
    g.require(bool(ours(log)) == bad, '{} warning although the matrix {} non-finite values',
              'no' if bad else 'a', 'contains' if bad else 'does not contain')
    ctx.label(case['kernel']['k'], 'non-finite' if bad else 'finite')
    ctx.interesting(bad)


# ---------------------------------------------------------------------------------------------

@st.composite
def direct_cases(draw):
    n = draw(g.sizes(1, 8, 60, 1100))
    cells = [[draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)),
              draw(st.sampled_from(sorted(BAD) + ['-diag']))]
             for _ in range(draw(st.sampled_from((0, 0, 1, 1, 2))))]
    return dict(n=n, s=draw(g.seeds), cells=cells)


def run_direct(case, ctx):
    from kernelmethods.operations import normalize_km
    n = case['n']
    r = np.random.RandomState(case['s'])
    K = r.randn(n, n)
    K = K + K.T
    K[np.arange(n), np.arange(n)] = r.rand(n) + 0.5
    for i, j, what in case['cells']:
        if what == '-diag':
            K[i, i] = -1.0
        elif i != j:
            K[i, j] = K[j, i] = BAD[what]
    d = K.diagonal().astype(LD)
    N = cosine(K.astype(LD), d, d)
    bad = not np.isfinite(N).all()
    with warnings.catch_warnings(record=True) as log, np.errstate(all='ignore'):
        warnings.simplefilter('always')
        out = normalize_km(K)
    mine = [w for w in log if not issubclass(w.category, (RuntimeWarning, DeprecationWarning))]
    known = ~((d < 0)[:, None] | (d < 0)[None, :])
    agree('normalize_km', np.where(known, out, 0), np.where(known, N, 0))
    g.require(bool(mine) == bad, 'normalize_km: {} warning although the result {} finite',
              'a' if mine else 'no', 'is not' if bad else 'is')
    ctx.label('bad' if bad else 'finite')
    ctx.interesting(bad)


# ---------------------------------------------------------------------------------------------

FORMATS = ('dense', 'matrix', 'F', 'csr', 'csc', 'coo', 'lil', 'dok', 'bsr', 'csr_array', 'dense1')


@st.composite
def helper_cases(draw):
    n, m = draw(g.sizes(1, 8, 60, 1100)), draw(g.sizes(1, 8, 60, 1100))
    if draw(st.booleans()):
        m = n
    pos = [[draw(st.integers(0, n - 1)), draw(st.integers(0, m - 1)),
            draw(st.sampled_from(sorted(BAD)))] for _ in range(draw(st.integers(0, 2)))]
    return dict(n=n, m=m, pos=pos, s=draw(g.seeds), fmt=draw(st.sampled_from(FORMATS)),
                t=draw(st.sampled_from(('f8', 'f8', 'f4', 'i8'))),
                large=draw(st.integers(0, 3)) == 0)


def run_helper(case, ctx):
    from kernelmethods.utils import contains_nan_inf
    r = np.random.RandomState(case['s'])
    a = np.round(r.randn(case['n'], case['m']) * 5 * (r.rand(case['n'], case['m']) < 0.5), 1)
    if case['large']:  # finite, although sums or products of them are not
        a = np.where(a == 0, 0, np.sign(a) if case['s'] % 2 else 1) * {
            'f8': 1.7e308, 'f4': 3e38, 'i8': 2.0 ** 62}[case['t']]
    bad = bool(case['pos']) and case['t'] != 'i8'
    if bad:
        for i, j, what in case['pos']:
            a[i, j] = BAD[what]
    a = a.astype(case['t'])
    f = case['fmt']
    obj = a if f == 'dense' else a.ravel() if f == 'dense1' else np.asfortranarray(a) if f == 'F' \
        else np.matrix(a) if f == 'matrix' else sparse.csr_array(a) if f == 'csr_array' \
        else getattr(sparse, f + '_matrix')(a)
    out = contains_nan_inf(obj)
    g.require(bool(out) == bad, 'contains_nan_inf is {!r} for a {} matrix {} non-finite values', out,
              f, 'with' if bad else 'without')
    ctx.label(f, 'bad' if bad else 'finite')
    ctx.interesting(bad)


SUBS = [
    Sub('histories', cases, run, n=6000, rule='the matrix or its normalization is not finite'),
    Sub('numeric', numeric_cases, run_numeric, n=1500, rule='the matrix is not finite'),
    Sub('direct', direct_cases, run_direct, n=2000, rule='the normalized matrix is not finite'),
    Sub('helper', helper_cases, run_helper, n=2000, rule='a non-finite value is present'),
]
