"""Oracle: plain Python / numpy restatements of what is valid, and of the values to be returned."""
import functools

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g

TYPES = ('f8', 'f4', 'f2', 'i8', 'i4', 'i2', 'i1', 'u1', 'u2', 'u4', 'u8', 'bool', 'object', 'numstr')
HOWS = ('list', 'tuple', 'arr', 'F', 'rows', 'ro')


def values(n, t, s):
    r = np.random.RandomState(s)
    v = r.randint(-30, 90, n) / (1.0 if t[0] in 'iu' else 4.0)
    if t[0] == 'u':
        v = np.abs(v)
    if t == 'bool':
        v = v % 2 >= 1
    return v


def container(v, t, how):
    """The values in a container of the requested type and layout."""
    if t == 'numstr':
        a = np.array([repr(float(x)) for x in v.ravel()]).reshape(v.shape)
    elif t == 'object':
        a = v.astype(object)
    else:
        a = v.astype(t)
    if how == 'list':
        return a.tolist()
    if how == 'tuple':
        return tuple(tuple(x) if isinstance(x, list) else x for x in a.tolist())
    return g.lay(a, 'C' if how == 'arr' else how)


# ---------------------------------------------------------------------------------------------

@st.composite
def convert_cases(draw):
    dim = draw(st.sampled_from((1, 2)))
    ndim = draw(st.integers(0, 4))
    # some singleton dimensions
    shape = [draw(st.sampled_from((1, 1, 2, 3, 5))) for _ in range(ndim)]
    if ndim and draw(st.booleans()):  # likely to be valid
        shape[dim:] = [1] * len(shape[dim:])
    return dict(dim=dim, shape=shape, t=draw(st.sampled_from(TYPES)), s=draw(g.seeds),
                how=draw(st.sampled_from(HOWS)),
                cols=draw(st.sampled_from((None, None, 0, 1, -1, 2))),
                want=draw(st.sampled_from(('number', 'f8', 'f4', 'own', 'none'))),
                text=draw(st.integers(0, 5)) == 0)


def run_convert(case, ctx):
    from kernelmethods import utils as u
    dim, shape = case['dim'], tuple(case['shape'])
    t, how = case['t'], case['how']
    if not shape and how in ('tuple', 'F', 'rows', 'ro'):
        how = 'arr'
    v = values(int(np.prod(shape, dtype=int)), t, case['s']).reshape(shape)
    obj = container(v, t, how)
    if case['text'] and shape:
        a = np.array(container(v, 'f8', 'arr'), dtype=object)
        a.ravel()[0] = 'abc'
        obj = a if how == 'arr' else a.tolist()
    arr = np.asarray(obj)
    # singleton dimensions beyond those required do not count
    left = shape[:dim] + tuple(z for z in shape[dim:] if z != 1)
    ok = len(left) == dim
    want = {'number': np.number, 'f8': np.float64, 'f4': np.float32, 'own': arr.dtype,
            'none': None}[case['want']]
    kw = {} if case['want'] == 'number' else {'ensure_dtype': want}
    if case['text'] and shape and case['want'] in ('number', 'f8', 'f4'):
        ok = False
    if dim == 2 and case['cols'] is not None and len(left) > 1:
        kw['ensure_num_cols'] = left[1] + case['cols'] if case['cols'] else left[1]
        if kw['ensure_num_cols'] != left[1]:
            ok = False
    func = u.ensure_ndarray_1D if dim == 1 else u.ensure_ndarray_2D
    snap = np.array(arr, copy=True)
    if not ok:
        g.raises('{} of shape {} {}'.format(func.__name__, shape, kw), ValueError, func, obj, **kw)
        ctx.label('refused')
    else:
        out = func(obj, **kw)
        g.require(isinstance(out, np.ndarray) and out.shape == left, '{}: shape {} instead of {}',
                  func.__name__, getattr(out, 'shape', None), left)
        if case['want'] in ('number', 'f8', 'f4'):
            g.require(np.issubdtype(out.dtype, want), '{}: type {} instead of {}', func.__name__,
                      out.dtype, case['want'])
            ref = v.reshape(left).astype('f8')
            ref = ref.astype(out.dtype).astype('f8') if out.dtype.kind == 'f' else ref
            g.require(np.array_equal(out.astype('f8'), ref), '{}: {!r} instead of {!r}',
                      func.__name__, out, ref)
        else:
            g.require(out.dtype == arr.dtype, '{}: type {} instead of {}', func.__name__, out.dtype,
                      arr.dtype)
            g.require(out.tolist() == arr.reshape(left).tolist(), '{}: {!r} instead of {!r}',
                      func.__name__, out, arr)
        ctx.label('converted')
        ctx.interesting()
    g.require(np.array_equal(np.asarray(obj), snap), 'input modified')
    ctx.label(t, how, '{}D'.format(dim))


# ---------------------------------------------------------------------------------------------

@st.composite
def pair_cases(draw):
    n = draw(g.sizes(1, 8, 40))
    m = n if draw(st.integers(0, 3)) else draw(g.sizes(1, 8, 40))
    return dict(n=n, m=m, t1=draw(st.sampled_from(TYPES)), t2=draw(st.sampled_from(TYPES)),
                h1=draw(st.sampled_from(HOWS)), h2=draw(st.sampled_from(HOWS)), s=draw(g.seeds),
                col=draw(st.integers(0, 2)))


def run_pair(case, ctx):
    from kernelmethods.utils import check_input_arrays
    n, m = case['n'], case['m']
    a, b = values(n, case['t1'], case['s']), values(m, case['t2'], case['s'] ^ 77)
    A = a.reshape(n, 1) if case['col'] == 1 else a
    B = b.reshape(m, 1) if case['col'] == 2 else b
    x, y = container(A, case['t1'], case['h1']), container(B, case['t2'], case['h2'])
    if n != m:
        g.raises('vectors of length {} and {}'.format(n, m), ValueError, check_input_arrays, x, y)
        ctx.label('refused')
        return
    out = check_input_arrays(x, y)
    g.require(len(out) == 2, '{} values', len(out))
    for o, ref in zip(out, (a, b)):
        g.require(isinstance(o, np.ndarray) and o.shape == (n,), 'shape {}', getattr(o, 'shape', 0))
        # arithmetic on the result must not wrap around
        g.require(o.dtype.kind == 'f', 'type {}', o.dtype)
        ref = ref.astype(o.dtype)
        g.require(np.array_equal(o, ref), '{!r} instead of {!r}', o, ref)
    ctx.label(case['t1'], case['t2'])
    ctx.interesting()


# ---------------------------------------------------------------------------------------------

@st.composite
def scale_cases(draw):
    n = draw(g.sizes(1, 10, 50))
    return dict(v=draw(st.lists(st.one_of(g.eighths, g.eighths, st.floats(-1e6, 1e6)), min_size=n,
                                max_size=n)),
                nan=draw(st.lists(st.integers(0, n - 1), max_size=2)), how=draw(st.sampled_from(
                    ('list', 'arr', 'int', 'ro', 'i1', 'u1', 'i2'))), wide=draw(st.sampled_from((1, 20, 5000))),
                flat=draw(st.integers(0, 4)) == 0,
                shift=draw(st.sampled_from((0.0, 1.0, -5.0, 1e3))), sc=draw(st.sampled_from(
                    (1.0, 0.5, 8.0))))


def run_scale(case, ctx):
    from kernelmethods.utils import min_max_scale
    v = np.array(case['v'], dtype='f8')
    if case['flat']:
        v[:] = v[0]
    if case['how'] in ('int', 'i1', 'u1', 'i2'):
        v = np.round(v)
        if case['how'] != 'int':
            info = np.iinfo(case['how'])
            v = np.clip(v * case['wide'], info.min, info.max)
    else:
        v[case['nan'] if len(case['nan']) < len(v) else []] = np.nan
    obj = {'list': v.tolist, 'arr': v.copy, 'int': lambda: v.astype('i8'),
           'ro': lambda: g.lay(v, 'ro')}.get(case['how'], lambda: v.astype(case['how']))()
    nan = np.isnan(v)
    lo, hi = v[~nan].min(), v[~nan].max()
    out = np.asarray(min_max_scale(obj))
    g.require(out.shape == v.shape, 'shape {}', out.shape)
    g.require(np.array_equal(np.isnan(out), nan), 'undefined at {} instead of {}', np.isnan(out),
              nan)
    if hi - lo < 1e-7:
        if hi - lo == 0:
            g.require((out[~nan] == 0).all(), 'equal values scaled to {}', out)
        return
    ref = (v - lo) / (hi - lo)
    g.same('scaled', out[~nan], ref[~nan], 1e-9)
    again = np.asarray(min_max_scale(v * case['sc'] + case['shift']))
    # rounding of the shifted values relative to their spread
    eps = 1e-15 * (abs(lo) + abs(hi) + abs(case['shift'])) * 8 / (hi - lo) + 1e-9
    if (hi - lo) * case['sc'] > 1e-6:
        g.same('scaled after an affine change', again[~nan], ref[~nan], 8 * eps)
    ctx.label(case['how'], 'nan' if nan.any() else 'finite')
    ctx.interesting()


# ---------------------------------------------------------------------------------------------
# predicates

class Sized:
    """Iterable with a length."""

    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __iter__(self):
        return iter(range(self.n))


ITER = {'list': lambda n: [0] * n, 'tuple': lambda n: (0,) * n, 'arr': np.zeros,
        'arr2': lambda n: np.zeros((n, 2)), 'set': lambda n: set(range(n)), 'range': range,
        'dict': lambda n: dict.fromkeys(range(n)), 'str': lambda n: 'a' * n,
        'npstr': lambda n: np.str_('a' * n), 'bytes': lambda n: b'a' * n, 'sized': Sized,
        'int': lambda n: n, 'float': float, 'none': lambda n: None, 'func': lambda n: (lambda: n)}


def two(x, y):
    return 0


def make_func(p, q, how):
    """A callable of p positional parameters, q of them with a default."""
    names = ['a%d' % i for i in range(p)]
    names[p - q:] = [a + '=0' for a in names[p - q:]] if q else names[p:]
    if how == 'lambda':
        return eval('lambda {}: 0'.format(', '.join(names)))
    space = {}
    if how == 'def':
        exec('def f({}):\n    return 0'.format(', '.join(names)), space)
        return space['f']
    exec('class F:\n    def __call__({0}):\n        return 0\n    def m({0}):\n        return 0'
         .format(', '.join(['self'] + names)), space)
    return space['F']() if how == 'object' else space['F']().m


@st.composite
def predicate_cases(draw):
    return dict(what=draw(st.sampled_from(('iterable', 'callable', 'notcallable', 'operation',
                                           'name'))),
                kind=draw(st.sampled_from(sorted(ITER))), n=draw(st.integers(0, 5)),
                least=draw(st.sampled_from((None, 0, 1, 2, 3, 5))), p=draw(st.integers(0, 5)),
                q=draw(st.integers(0, 3)), form=draw(st.sampled_from(
                    ('lambda', 'def', 'object', 'method'))),
                op=draw(st.sampled_from(('sum', 'Product', 'AVERAGE', 'average', 'mean', '', 'sums',
                                         'SUM', 'product', 'weighted'))),
                name=draw(st.sampled_from((None, 'abc', 5))), how=draw(st.sampled_from(
                    ('def', 'lambda', 'partial', 'object', 'class'))))


def run_predicate(case, ctx):
    from kernelmethods import utils as u
    what = case['what']
    if what == 'iterable':
        obj = ITER[case['kind']](case['n'])
        least = 1 if case['least'] is None else case['least']
        want = case['kind'] not in ('str', 'npstr', 'int', 'float', 'none', 'func') and \
            case['n'] >= least
        out = u.is_iterable_but_not_str(obj) if case['least'] is None else \
            u.is_iterable_but_not_str(obj, min_length=least)
        g.require(bool(out) == want, '{!r} of length {}, at least {}: {!r}', case['kind'], case['n'],
                  least, out)
    elif what == 'callable':
        f = make_func(case['p'], min(case['q'], case['p']), case['form'])
        least = 2 if case['least'] is None else case['least']
        kw = {} if case['least'] is None else {'min_num_args': least}
        if case['p'] >= least:
            g.require(u.check_callable(f, **kw) == f, 'not the same function')
        else:
            g.raises('callable of {} arguments, at least {}'.format(case['p'], least), TypeError,
                     u.check_callable, f, **kw)
    elif what == 'notcallable':
        if case['kind'] == 'func':
            return
        g.raises('a {}'.format(case['kind']), TypeError, u.check_callable,
                 ITER[case['kind']](case['n']))
    elif what == 'operation':
        if case['op'].lower() in ('sum', 'product', 'average'):
            out = u.check_operation_kernel_matrix(case['op'])
            g.require(out == case['op'].lower(), 'operation {!r} for {!r}', out, case['op'])
        else:
            g.raises('operation {!r}'.format(case['op']), ValueError,
                     u.check_operation_kernel_matrix, case['op'])
    else:
        f = {'def': two, 'lambda': lambda x, y: 0, 'partial': functools.partial(two, y=1),
             'object': Sized(3), 'class': Sized}[case['how']]
        out = u.get_callable_name(f, case['name']) if case['name'] else u.get_callable_name(f)
        if case['name']:
            g.require(out == str(case['name']), 'name {!r} given as {!r}', out, case['name'])
        elif case['how'] in ('def', 'class'):
            g.require(out == f.__name__, 'name {!r} of {!r}', out, f)
        else:
            g.require(isinstance(out, str) and out, 'name {!r}', out)
    ctx.label(what)
    ctx.interesting()


SUBS = [
    Sub('conversion', convert_cases, run_convert, n=6000, rule='the input is valid'),
    Sub('pairs', pair_cases, run_pair, n=3000, rule='vectors of equal length'),
    Sub('scaling', scale_cases, run_scale, n=2500, rule='values that are not all equal'),
    Sub('predicates', predicate_cases, run_predicate, n=2500, rule='every case'),
]
