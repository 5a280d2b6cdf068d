"""Oracle: index expressions invalid by construction (out of range by any amount, empty,
non-integer, textual, wrong arity) in either dimension of computed (one- or two-sample) and constant
matrices must raise - and valid selections before and after agree with the model."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist, idk

# must be this library's access error
ACCESS = ('beyond', 'negative', 'list_beyond', 'list_negative', 'arr_beyond', 'empty_list',
          'empty_arr', 'empty_slice', 'beyond_slice', 'string', 'arity1', 'arity3', 'arity4',
          'whole_string', 'whole_string2', 'whole_slice', 'whole_float', 'linear_beyond',
          'linear_negative')
# any exception will do
OTHER = ('float', 'float_list', 'float_arr', 'str_list', 'none', 'none_list', 'ellipsis', 'nested',
         'whole_none', 'whole_list3', 'bool_mask', 'object', 'bool', 'np_bool', 'bool_list')


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(('km', 'km', 'km2', 'km2', 'const')))
    n = draw(g.sizes(1, 8, 60))
    m = draw(g.sizes(1, 8, 60)) if kind == 'km2' else n
    bad = draw(st.sampled_from(ACCESS + (OTHER if kind != 'const' else ('none', 'ellipsis'))))
    return dict(kind=kind, n=n, m=m, bad=bad, dim=draw(st.integers(0, 1)),
                other=draw(hist.dim_index(3)), by=draw(st.sampled_from((0, 0, 1, 2, 7, 500))),
                vals=draw(st.lists(st.integers(0, 60), min_size=1, max_size=4)),
                at=draw(st.integers(0, 4)), t=draw(st.sampled_from(hist.INT_TYPES[:5])),
                normalized=draw(st.booleans()), full=draw(st.booleans()))


def typed(v, t):
    return v if t == 'int' or abs(v) > np.iinfo(t).max else np.dtype(t).type(v)


def bad_dim(case, n):
    """An invalid index for a dimension of size n."""
    bad, by = case['bad'], case['by']
    vals = [v % n for v in case['vals']]
    at = case['at'] % (len(vals) + 1)
    if bad == 'beyond':
        return typed(n + by, case['t'])
    if bad == 'negative':
        return typed(-1 - min(by, n + 1), case['t'])
    if bad == 'list_beyond':
        return vals[:at] + [n + by] + vals[at:]
    if bad == 'list_negative':
        return tuple(vals[:at] + [-1 - by] + vals[at:])
    if bad == 'arr_beyond':
        return np.array(vals[:at] + [n + by] + vals[at:])
    return {'empty_list': [], 'empty_arr': np.array([], dtype=int), 'empty_slice': slice(n, n),
            'beyond_slice': slice(n + by, n + by + 3), 'string': str(vals[0]), 'float': 0.5,
            'float_list': [0.5], 'float_arr': np.array([0.0, 0.5]), 'str_list': ['0'],
            'none': None, 'none_list': [None], 'ellipsis': Ellipsis, 'nested': [[0], [0]],
            'bool_mask': np.ones(n, dtype=bool), 'object': object(), 'bool': bool(by % 2),
            'np_bool': np.bool_(by % 2), 'bool_list': [False] + vals[:by]}[bad]


WHOLE = {'arity1': lambda n, m, c: (0,), 'arity3': lambda n, m, c: (0, 0, 0),
         'arity4': lambda n, m, c: (slice(None), 0, 0, 0), 'whole_string': lambda n, m, c: '0',
         'whole_string2': lambda n, m, c: '00', 'whole_slice': lambda n, m, c: slice(None),
         'whole_float': lambda n, m, c: 1.0, 'whole_none': lambda n, m, c: None,
         'whole_list3': lambda n, m, c: [0, 0, 0],
         'linear_beyond': lambda n, m, c: typed(n * m + c['by'], c['t']),
         'linear_negative': lambda n, m, c: typed(-1 - c['by'], c['t'])}


def run(case, ctx):
    from kernelmethods.base import ConstantKernelMatrix, KernelMatrix
    from kernelmethods.config import KMAccessError
    n, m, bad = case['n'], case['m'], case['bad']
    X, Y = idk.sample(0, n), idk.sample(1000, m) if case['kind'] == 'km2' else None
    if case['kind'] == 'const':
        km, shape, model = ConstantKernelMatrix(n, 2.5), (n, n), None
    else:
        K = idk.IdKernel()
        km = KernelMatrix(K.kernel(), normalized=case['normalized'])
        if Y is None:
            km.attach_to(X)
        else:
            km.attach_to(X, sample_two=Y, name_two='Y')
        model = K.model(X, Y)
        shape = model.shape
        if case['full']:
            hist.apply_view(km, 'full', model, case['normalized'])
    if bad in WHOLE:
        obj = WHOLE[bad](n, m, case)
    else:
        pair = [None, None]
        dim = case['dim']
        pair[dim] = bad_dim(case, shape[dim])
        good, sel = hist.resolve(case['other'], shape[1 - dim])
        pair[1 - dim] = good if sel else 0
        obj = tuple(pair)
    g.raises('{}[{!r}] of shape {}'.format(case['kind'], obj, shape)[:300],
             KMAccessError if bad in ACCESS else Exception, lambda: km[obj])
    # valid corners remain accessible, with the right values
    for r, c in ((0, shape[1] - 1), (shape[0] - 1, 0), (shape[0] - 1, shape[1] - 1)):
        if model is None:
            g.same('constant', km[r, c], np.full((1, 1), 2.5), 0)
        else:
            v = idk.value(int(X[r, 0]), int((X if Y is None else Y)[c, 0]))
            g.same('km[{}, {}]'.format(r, c), km[r, c], np.full((1, 1), v), 1e-12)
    ctx.label(bad, case['kind'], 'dim{}'.format(case['dim']))
    ctx.interesting()


SUBS = [Sub('invalid', cases, run, n=12000,
            rule='every case has exactly one invalid index expression')]
