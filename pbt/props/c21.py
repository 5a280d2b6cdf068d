"""Differential: precomputed and constant kernel matrices against the plain numpy array they
represent, over generated matrices (valid and invalid), selections, constants and types."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist

VALID = ('float', 'int', 'big', 'huge', 'tiny', 'f4', 'i1', 'bool', 'nearly', 'eye', 'zeros', 'const')
INVALID = ('asym', 'asym_int', 'asym_small', 'wide', 'tall', 'row_const', 'col_const', 'vector',
           'scalar', 'cube', 'complex', 'nan', 'ragged', 'antisym', 'cube1', 'complex_off')


@st.composite
def pre(draw):
    n = draw(g.sizes(1, 7, 40))
    sel = st.one_of(
        hist.selection(linear=False).map(lambda s: ['pair', s]),
        st.integers(-9, 9).map(lambda i: ['int', i]),
        st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(lambda t: ['ij', *t]),
        st.lists(st.integers(0, 30), min_size=1, max_size=4).map(lambda v: ['rows', v]),
        st.sampled_from(('all', 'ellipsis', 'mask', 'ix', 'col')).map(lambda v: ['misc', v]),
        st.sampled_from(('beyond', 'float', 'text', 'three', 'beyond2', 'listbeyond')).map(
            lambda v: ['bad', v]))
    return dict(n=n, kind=draw(st.sampled_from(VALID)), s=draw(g.seeds),
                form=draw(st.sampled_from(('arr', 'list', 'tuple', 'F', 'ro', 'cols', 'mat'))),
                name=draw(st.sampled_from((None, 'mine', 'K1'))),
                sels=draw(st.lists(sel, min_size=1, max_size=4)))


def symmetric(kind, n, seed):
    r = np.random.RandomState(seed)
    a = r.randn(n, n) * 3
    a = a + a.T
    if kind in ('int', 'i1'):
        a = np.round(a).astype('i8' if kind == 'int' else 'i1')
        a = np.triu(a) + np.triu(a, 1).T
    elif kind in ('big', 'huge'):
        a = np.round(a * (10000 if kind == 'big' else 2.0 ** 40)).astype('i8')
        a = np.triu(a) + np.triu(a, 1).T
    elif kind == 'tiny':
        a = a * 1e-6
    elif kind == 'f4':
        a = a.astype('f4')
    elif kind == 'bool':
        a = a > 0
    elif kind == 'nearly':
        a = a + r.randn(n, n) * 1e-12
    elif kind == 'eye':
        a = np.eye(n)
    elif kind == 'zeros':
        a = np.zeros((n, n))
    elif kind == 'const':
        a = np.full((n, n), 1.5)
    return a


def matrix(a):
    """numpy's matrix class, whose product and selections differ from those of arrays."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return np.matrix(a)


def run_pre(case, ctx):
    from kernelmethods.base import KernelMatrixPrecomputed
    from kernelmethods.config import KMAccessError
    n = case['n']
    A = symmetric(case['kind'], n, case['s'])
    form = case['form']
    arg = A.tolist() if form == 'list' else tuple(map(tuple, A.tolist())) if form == 'tuple' \
        else matrix(A) if form == 'mat' else g.lay(A, form if form != 'arr' else 'C')
    R = np.array(arg)
    km = KernelMatrixPrecomputed(arg) if case['name'] is None else \
        KernelMatrixPrecomputed(arg, name=case['name'])

    def eq(what, got, want):
        got, want = np.asarray(got), np.asarray(want)
        g.require(got.shape == want.shape and np.array_equal(got, want), '{}: {!r} instead of {!r}',
                  what, got, want)

    eq('full', km.full, R)
    eq('diag', km.diag, R.diagonal())
    g.require(km.size == n and len(km) == n and km.num_samples == n, 'sizes {} {} {} for {}',
              km.size, len(km), km.num_samples, n)
    done = 0
    for sel in case['sels']:
        if sel[0] == 'bad':
            obj = {'beyond': (n, 0), 'float': (0.5, 0), 'text': 'row', 'three': (0, 0, 0),
                   'beyond2': (0, -n - 1), 'listbeyond': ([0, n], 0)}[sel[1]]
            g.raises('precomputed[{!r}]'.format(obj), KMAccessError, lambda: km[obj])
            ctx.label('bad:' + sel[1])
            continue
        if sel[0] == 'pair':
            obj, rows, cols = hist.resolve_selection(sel[1], (n, n))
            if isinstance(obj[0], set) or isinstance(obj[1], set):
                continue
        elif sel[0] == 'int':
            obj = sel[1]
        elif sel[0] == 'ij':
            obj = (sel[1], sel[2])
        elif sel[0] == 'rows':
            obj = [v % n for v in sel[1]]
        else:
            obj = {'all': (slice(None), slice(None)), 'ellipsis': Ellipsis, 'mask': R > 0,
                   'ix': np.ix_([0, n - 1], [n - 1]), 'col': (slice(None), [0])}[sel[1]]
        try:
            want = R[obj]
        except (IndexError, TypeError, ValueError):
            g.raises('precomputed[{!r}]'.format(obj)[:200], KMAccessError, lambda: km[obj])
            ctx.label('invalid')
            continue
        eq('precomputed[{!r}]'.format(obj)[:200], km[obj], want)
        done += 1
        ctx.label(sel[0])
    eq('full afterwards', km.full, R)
    ctx.label(case['kind'])
    ctx.interesting(done > 0 and n > 1)


@st.composite
def bad(draw):
    return dict(n=draw(g.sizes(1, 7, 30, 700)), kind=draw(st.sampled_from(INVALID)), s=draw(g.seeds),
                by=draw(st.integers(1, 4)), ij=[draw(st.integers(-60, 60)), draw(st.integers(-60, 60))],
                aslist=draw(st.booleans()))


def run_bad(case, ctx):
    from kernelmethods.base import KernelMatrixPrecomputed
    n, kind, by = case['n'], case['kind'], case['by']
    A = symmetric('float', n, case['s'])
    if kind.startswith('asym') or kind == 'antisym':
        n = max(n, 2)
        A = symmetric('int' if kind == 'asym_int' else 'float', n, case['s'])
        i, j = case['ij'][0] % n, case['ij'][1] % n
        if i == j:
            j = (i + 1) % n
        if kind == 'antisym':
            A = np.triu(A, 1) - np.triu(A, 1).T
            A[i, j] += 5.0 if abs(A[i, j] * 2) < 1 else 0
        else:
            A[i, j] += {'asym': by, 'asym_int': by,
                        'asym_small': 1e-3 * (1 + abs(A[i, j]))}[kind]
    elif kind == 'wide':
        A = np.hstack([A] + [A[:, :1]] * by)
    elif kind == 'tall':
        A = np.vstack([A] + [A[:1]] * by)
    elif kind == 'row_const':
        A = np.full((1, n + 1), 2.0)
    elif kind == 'col_const':
        A = np.full((n + 1, 1), 2.0)
    elif kind == 'vector':
        A = A[0]
    elif kind == 'scalar':
        A = np.array(3.0)
    elif kind == 'cube':
        A = np.stack([A, A])
    elif kind == 'cube1':
        A = A[:, :, None]
    elif kind == 'complex':
        A = A + 1j * np.eye(n)
    elif kind == 'complex_off':
        n = max(n, 2)
        A = symmetric('float', n, case['s']).astype(complex)
        i, j = case['ij'][0] % n, case['ij'][1] % n
        A[i, j] += by * 1j
        A[j, i] = A[i, j]
    elif kind == 'nan':
        i, j = case['ij'][0] % n, case['ij'][1] % n
        A[i, j] = A[j, i] = np.nan
    arg = A.tolist() if case['aslist'] else A
    if kind == 'ragged':
        arg = A.tolist()
        arg[case['ij'][0] % n] = arg[case['ij'][0] % n] + [1.0]
        if n == 1:
            arg = [[1.0, 2.0], [2.0]]
    g.raises('precomputed from a {} matrix'.format(kind), ValueError, KernelMatrixPrecomputed, arg)
    ctx.label(kind)
    ctx.interesting()


@st.composite
def const(draw):
    dtype = draw(st.sampled_from(('float', 'f4', 'int', 'i1', 'bool', None)))
    return dict(n=draw(g.sizes(1, 9, 60)), v=draw(st.sampled_from((0.0, 1, 2.5, -3, 7))),
                t=dtype, sels=draw(st.lists(hist.selection(linear=False), min_size=1, max_size=4)),
                full_first=draw(st.booleans()))


def run_const(case, ctx):
    from kernelmethods.base import ConstantKernelMatrix
    from kernelmethods.config import KMAccessError
    n, v = case['n'], case['v']
    kw = {} if case['t'] is None else dict(dtype=case['t'])
    km = ConstantKernelMatrix(n, v, **kw)
    dt = np.dtype('float' if case['t'] is None else case['t'])
    R = np.full((n, n), v, dtype=dt)

    def eq(what, got, want):
        g.require(isinstance(got, np.ndarray) and got.shape == want.shape and
                  got.dtype == want.dtype and np.array_equal(got, want),
                  '{}: {!r} instead of {!r}', what, got, want)

    if case['full_first']:
        eq('full', km.full, R)
    done = 0
    for sel in case['sels']:
        obj, rows, cols = hist.resolve_selection(sel, (n, n))
        if not rows or not cols:
            g.raises('empty selection', KMAccessError, lambda: km[obj])
            continue
        eq('constant[{!r}]'.format(obj)[:200], km[obj], R[np.ix_(rows, cols)])
        done += 1
    eq('full', km.full, R)
    eq('diag', km.diag, R.diagonal())
    g.require(tuple(km.shape) == (n, n) and km.size == n and len(km) == n and km.num_samples == n,
              'sizes {} {} {} for {}', km.shape, km.size, len(km), n)
    ctx.label(str(case['t']))
    ctx.interesting(done > 0 and n > 1)


SUBS = [
    Sub('precomputed', pre, run_pre, n=5000, rule='a selection from a matrix larger than 1x1'),
    Sub('invalid', bad, run_bad, n=2500, rule='every case must be refused'),
    Sub('constant', const, run_const, n=3000, rule='a selection from a matrix larger than 1x1'),
]
