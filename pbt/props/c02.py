"""Oracle: a pair of vectors corrupted in a known way (length, dimension, kind, sign) in a known
argument position must make the kernel raise; the uncorrupted pair must not."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g

CORRUPT = ('shorter', 'longer', 'one', 'empty', 'matrix', 'rowvec', 'stack', 'cube', 'text',
           'object', 'textlist', 'mixed', 'ragged')


@st.composite
def numeric(draw):
    k = draw(g.kernels(g.NUMERIC, wide=True, skip=False))
    d = draw(g.sizes(2, 9, 40))
    kw = g.needs(k)
    x = draw(g.samples(n=1, d=d, **kw))
    y = draw(g.samples(n=1, d=d, **kw))
    return dict(kernel=k, x=x, y=y, how=draw(st.sampled_from(CORRUPT)),
                who=draw(st.sampled_from(('first', 'second', 'both'))),
                pos=draw(st.integers(0, d - 1)), aslist=draw(st.booleans()))


def corrupt(v, how, pos):
    """None when the corruption can not apply."""
    if how == 'shorter':
        return v[:-1] if pos % 2 else v[1:]
    if how == 'longer':
        return np.concatenate([v, v[:1 + pos]])
    if how == 'one':
        return v[:1]
    if how == 'empty':
        return v[:0]
    if how == 'matrix':
        return v.reshape(2, -1) if v.size % 2 == 0 and v.size > 2 else np.vstack([v, v])
    if how == 'rowvec':
        return v.reshape(1, -1)
    if how == 'stack':
        return np.column_stack([v, v])
    if how == 'cube':
        return np.array([[v, v], [v, v]])
    if how == 'text':
        return np.array(['v{}'.format(i) for i in range(v.size)])
    if how == 'textlist':
        return ['abc'] * v.size
    if how == 'object':
        a = v.astype(object)
        a[pos] = {'not': 'a number'}
        return a
    if how == 'mixed':
        a = v.tolist()
        a[pos] = 'x'
        return a
    if how == 'ragged':
        a = v.tolist()
        a[pos] = [a[pos], a[pos]]
        return a
    raise AssertionError(how)


SIZES = ('shorter', 'longer', 'one', 'empty')


def run_numeric(case, ctx):
    spec = case['kernel']
    k = g.make_kernel(spec)
    x, y = g.build(case['x'])[0], g.build(case['y'])[0]
    val = k(x, y)
    g.require(np.ndim(val) == 0, 'valid pair: not a scalar: {!r}', val)
    how, who = case['how'], case['who']
    if how in SIZES and who == 'both':
        who = 'first'
    bx = corrupt(x, how, case['pos']) if who in ('first', 'both') else x
    by = corrupt(y, how, case['pos']) if who in ('second', 'both') else y
    if case['aslist']:
        bx, by = (v.tolist() if isinstance(v, np.ndarray) else v for v in (bx, by))
    g.raises('{} with {} argument(s) {}'.format(spec['k'], who, how), Exception, k, bx, by)
    again = k(x, y)
    g.require(np.array_equal(again, val, equal_nan=True), 'valid pair again: {!r} instead of {!r}',
              again, val)
    ctx.label(how, who, spec['k'])
    ctx.interesting()


@st.composite
def negative(draw):
    k = draw(g.kernels(('chi2',), wide=True))
    d = draw(g.sizes(1, 9, 60))
    kw = g.needs(k)
    x = draw(g.samples(n=draw(st.integers(1, 3)), d=d, layouts=False, **kw))
    y = draw(g.samples(n=draw(st.integers(1, 3)), d=d, layouts=False, **kw))
    return dict(kernel=k, x=x, y=y, who=draw(st.sampled_from(('first', 'second', 'both'))),
                row=draw(st.integers(0, 2)), pos=draw(st.integers(0, d - 1)),
                neg=draw(st.sampled_from((-1.0, -0.001, -50.0, -1e-9))),
                via=draw(st.sampled_from(('call', 'call', 'list', 'km', 'km2'))))


def run_negative(case, ctx):
    from kernelmethods.base import KernelMatrix
    k = g.make_kernel(case['kernel'])
    X, Y = g.build(case['x']).astype('f8'), g.build(case['y']).astype('f8')
    via, who = case['via'], case['who']
    if via == 'km':
        who = 'first'
    if who in ('first', 'both'):
        X[case['row'] % len(X), case['pos']] = case['neg']
    if who in ('second', 'both'):
        Y[case['row'] % len(Y), case['pos']] = case['neg']
    x, y = X[case['row'] % len(X)], Y[case['row'] % len(Y)]
    if via == 'call' or (via == 'list' and case['kernel'].get('skip')):
        g.raises('chi2 with a negative value', Exception, k, x, y)
    elif via == 'list':
        g.raises('chi2 with a negative value', Exception, k, x.tolist(), y.tolist())
    else:
        km = KernelMatrix(k, normalized=False)
        if via == 'km':
            km.attach_to(X)
        else:
            km.attach_to(X, sample_two=Y)
        g.raises('chi2 matrix of a sample with a negative value', Exception, lambda: km.full)
    ctx.label(via, who)
    ctx.interesting()


words = st.text('abcXY é', min_size=0, max_size=4)


@st.composite
def categorical(draw):
    d = draw(g.sizes(2, 8, 30))
    return dict(perc=draw(st.booleans()), skip=draw(st.booleans()),
                x=draw(st.lists(words, min_size=d, max_size=d)),
                y=draw(st.lists(words, min_size=d, max_size=d)),
                how=draw(st.sampled_from(('shorter', 'longer', 'one', 'matrix', 'stack', 'float',
                                          'int', 'numlist', 'bool', 'bytes', 'objnum'))),
                who=draw(st.sampled_from(('first', 'second', 'both'))), pos=draw(
                    st.integers(0, d - 1)))


def run_categorical(case, ctx):
    from kernelmethods.categorical import MatchCountKernel
    k = MatchCountKernel(return_perc=case['perc'])
    x, y = np.array(case['x']), np.array(case['y'])
    k(x, y)
    how, who = case['how'], case['who']
    if how in SIZES and who == 'both':
        who = 'first'

    def bad(v):
        if how == 'float':
            return np.arange(v.size) * 0.5
        if how == 'int':
            return np.arange(v.size)
        if how == 'numlist':
            return list(range(v.size))
        if how == 'bool':
            return np.ones(v.size, dtype=bool)
        if how == 'bytes':
            return np.array([b'a'] * v.size)
        if how == 'objnum':
            return np.arange(v.size).astype(object)
        return corrupt(v, how, case['pos'])

    bx = bad(x) if who in ('first', 'both') else x
    by = bad(y) if who in ('second', 'both') else y
    g.raises('match-count with {} argument(s) {}'.format(who, how), Exception, k, bx, by)
    ctx.label(how, who)
    ctx.interesting()


def _one(x):
    return 1.0


def _none():
    return 1.0


class _Obj:
    def __call__(self, x):
        return 1.0


NOT_FUNCS = {'int': 3, 'str': 'dot', 'none': None, 'list': [1], 'array': np.eye(2), 'dict': {},
             'one': _one, 'zero': _none, 'lambda1': lambda x: x, 'obj1': _Obj()}


@st.composite
def ctor(draw):
    what = draw(st.sampled_from(('hadamard', 'callable', 'matrix')))
    if what == 'hadamard':
        arg = draw(st.sampled_from((0, 0.0, -0.0)))
    elif what == 'callable':
        arg = draw(st.sampled_from(sorted(NOT_FUNCS)))
    else:
        arg = draw(st.sampled_from(sorted(NOT_FUNCS) + ['func2', 'class', 'km']))
    return dict(what=what, arg=arg, name=draw(st.one_of(st.none(), st.just('n'))),
                normalized=draw(st.booleans()), skip=draw(st.booleans()))


def run_ctor(case, ctx):
    from kernelmethods.base import KernelFromCallable, KernelMatrix
    from kernelmethods.numeric_kernels import HadamardKernel, LinearKernel
    what, arg = case['what'], case['arg']
    if what == 'hadamard':
        g.raises('Hadamard(alpha=0)', Exception, HadamardKernel, alpha=arg,
                 skip_input_checks=case['skip'])
    elif what == 'callable':
        g.raises('KernelFromCallable({})'.format(arg), Exception, KernelFromCallable,
                 NOT_FUNCS[arg], name=case['name'])
    else:
        obj = {'func2': lambda x, y: 1.0, 'class': LinearKernel}.get(arg, NOT_FUNCS.get(arg))
        if arg == 'km':
            obj = KernelMatrix(LinearKernel())
        g.raises('KernelMatrix({})'.format(arg), Exception, KernelMatrix, obj,
                 normalized=case['normalized'])
    ctx.label(what + ':' + str(arg))
    ctx.interesting()


SUBS = [
    Sub('numeric', numeric, run_numeric, n=8000,
        rule='every case has exactly one kind of corruption, of either or both arguments'),
    Sub('negative', negative, run_negative, n=4000,
        rule='every case has a negative value at a random position given to chi2'),
    Sub('categorical', categorical, run_categorical, n=3000,
        rule='every case has one kind of corruption of categorical data'),
    Sub('constructors', ctor, run_ctor, n=200,
        rule='every case is an invalid constructor argument'),
]
