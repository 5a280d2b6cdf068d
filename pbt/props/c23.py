"""Oracle: counting matches in plain Python; for callables, a log of the arguments received and the
values returned; kernel matrices, sets and composites against models built from the plain function."""
import functools

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist

LD = np.longdouble
ALPHABETS = {'letters': ['a', 'b', 'c'], 'prefix': ['a', 'aa', 'aaa', 'ab', 'b'],
             'case': ['a', 'A', 'b', 'B'], 'empty': ['', 'a', ' ', 'a '],
             'digits': ['1', '2', '01', '1.0', '10'], 'unicode': ['\u00e9', 'e', '\u4e2d', '\U0001f600', 'ab'],
             'words': ['red', 'green', 'blue', 'reddish'], 'binary': ['yes', 'no'],
             'long': ['x' * 40, 'x' * 40 + 'y', 'x' * 39, 'z']}


@st.composite
def words(draw, n=None, max_n=8, big=60, alphabet=None):
    n = draw(g.sizes(1, max_n, big)) if n is None else n
    a = alphabet or draw(st.sampled_from(sorted(ALPHABETS)))
    return [draw(st.sampled_from(ALPHABETS[a])) for _ in range(n)]


FORMS = ('list', 'tuple', 'arr', 'wide', 'strided', 'ro', 'rev')


def wrap(v, form):
    if form in ('list', 'tuple'):
        return list(v) if form == 'list' else tuple(v)
    a = np.array(v)
    if form == 'wide':
        return a.astype('U64')
    if form == 'strided':
        return np.repeat(a, 2)[::2]
    if form == 'rev':
        return a[::-1].copy()[::-1]
    if form == 'ro':
        a.flags.writeable = False
    return a


@st.composite
def pair_cases(draw):
    alpha = draw(st.sampled_from(sorted(ALPHABETS)))
    x = draw(words(alphabet=alpha))
    mode = draw(st.sampled_from(('free', 'free', 'same', 'shift', 'edit')))
    if mode == 'free':
        y = draw(words(n=len(x), alphabet=alpha))
    elif mode == 'same':
        y = list(x)
    elif mode == 'shift':
        y = x[1:] + x[:1]
    else:
        y = list(x)
        k = draw(st.integers(0, len(x) - 1))
        y[k] = draw(st.sampled_from(ALPHABETS[alpha]))
    return dict(x=x, y=y, fx=draw(st.sampled_from(FORMS)), fy=draw(st.sampled_from(FORMS)),
                perc=draw(st.sampled_from((True, False, None))), skip=draw(st.booleans()))


def match_kernel(perc, skip=False):
    from kernelmethods.categorical import MatchCountKernel
    kw = {} if perc is None else dict(return_perc=perc)
    if skip:
        kw['skip_input_checks'] = True
    return MatchCountKernel(**kw)


def matches(x, y, perc):
    c = sum(1 for a, b in zip(x, y) if a == b)
    return c if perc is False else c / len(x)


def run_pair(case, ctx):
    x, y = case['x'], case['y']
    k = match_kernel(case['perc'], case['skip'])
    ref = matches(x, y, case['perc'])
    X, Y = wrap(x, case['fx']), wrap(y, case['fy'])
    for what, out, r in (('k(x, y)', k(X, Y), ref), ('k(y, x)', k(Y, X), ref),
                         ('k(x, x)', k(X, X), matches(x, x, case['perc'])),
                         ('k(x, y) again', k(X, Y), ref)):
        g.require(np.ndim(out) == 0 and abs(float(out) - r) < 1e-12, '{} is {!r} instead of {}',
                  what, out, r)
    g.require(list(X) == x and list(Y) == y, 'inputs were modified')
    ctx.label('equal' if x == y else 'partial' if ref else 'no match', case['fx'])
    ctx.interesting(0 < ref and x != y)


# ---------------------------------------------------------------------------------------------
# match counts through kernel matrices, sets and composites

OPS = ('full', 'sparse', 'diagonal', 'normed', 'centered', 'frob', 'sizes')


@st.composite
def matrix_cases(draw):
    alpha = draw(st.sampled_from([a for a in sorted(ALPHABETS) if a != 'long']))
    n, m, d = draw(g.sizes(1, 6, 14)), draw(g.sizes(1, 6, 14)), draw(st.integers(1, 5))
    rows = lambda c: [draw(words(n=d, alphabet=alpha)) for _ in range(c)]  # noqa
    two = draw(st.booleans())
    return dict(x=rows(n), y=rows(m) if two else None, perc=draw(st.sampled_from((True, False))),
                normalized=draw(st.booleans()), wide=draw(st.booleans()),
                ops=draw(st.lists(hist.weighted(view=(3, st.sampled_from(OPS)),
                                                sel=(2, hist.selection(3))),
                                  min_size=1, max_size=5)),
                layout=draw(st.sampled_from(('C', 'F', 'rows', 'rev', 'ro'))))


def word_model(x, y, perc):
    def gram(A, B):
        V = np.array([[matches(list(a), list(b), perc) for b in B] for a in A], dtype=LD)
        V = V.reshape(len(A), len(B))
        return V, LD(1e-14) * (1 + V)

    def diag(A):
        V = np.array([matches(list(a), list(a), perc) for a in A], dtype=LD)
        return V, LD(1e-14) * (1 + V)

    return hist.Model(np.array(x), None if y is None else np.array(y), gram, diag)


def run_matrix(case, ctx):
    from kernelmethods.base import KernelMatrix
    model = word_model(case['x'], case['y'], case['perc'])
    X = g.lay(np.array(case['x']), case['layout'])
    km = KernelMatrix(match_kernel(case['perc']), normalized=case['normalized'])
    if case['y'] is None:
        km.attach_to(X)
    else:
        Y = np.array(case['y'])
        km.attach_to(X, sample_two=Y.astype('U70') if case['wide'] else Y, name_two='two')
    for op in case['ops']:
        if isinstance(op, str):
            if model.two and op in ('diagonal', 'centered'):
                continue
            hist.apply_view(km, op, model, case['normalized'])
        else:
            hist.apply_selection(km, op, model)
    K = np.asarray(model.K[0])
    ctx.label('two' if model.two else 'one', 'normalized' if case['normalized'] else 'plain')
    ctx.interesting(K.size > 1 and len(set(K.ravel().tolist())) > 1)


@st.composite
def set_cases(draw):
    alpha = draw(st.sampled_from([a for a in sorted(ALPHABETS) if a != 'long']))
    n, d = draw(g.sizes(1, 6)), draw(st.integers(1, 5))
    members = draw(st.lists(st.sampled_from(('perc', 'count', 'first', 'overlap')), min_size=2,
                            max_size=4))
    return dict(members=members, normalized=draw(st.lists(st.booleans(), min_size=4, max_size=4)),
                samples=[[draw(words(n=d, alphabet=alpha)) for _ in range(n)] for _ in range(2)],
                kind=draw(st.sampled_from(('sum', 'product', 'average', 'weighted', 'none'))),
                w=draw(st.lists(g.eighths, min_size=4, max_size=4)))


def f_first(x, y):
    return 1.0 + (x[0] == y[0])


def f_overlap(x, y, extra=0.5):
    return extra + len(set(x.tolist()) & set(y.tolist()))


def run_set(case, ctx):
    from kernelmethods import base
    kernels = {'perc': lambda: match_kernel(True), 'count': lambda: match_kernel(False),
               'first': lambda: base.KernelFromCallable(f_first),
               'overlap': lambda: base.KernelFromCallable(f_overlap, extra=0.25)}
    plain = {'perc': lambda x, y: matches(list(x), list(y), True),
             'count': lambda x, y: matches(list(x), list(y), False), 'first': f_first,
             'overlap': lambda x, y: f_overlap(x, y, 0.25)}
    ks = base.KernelSet([base.KernelMatrix(kernels[m](), normalized=nz)
                         for m, nz in zip(case['members'], case['normalized'])])
    for rows in case['samples']:
        X = np.array(rows)
        ks.attach_to(X)
        refs = []
        for m, nz, km in zip(case['members'], case['normalized'], ks):
            K = np.array([[plain[m](a, b) for b in X] for a in X], dtype='f8')
            if nz:
                s = np.sqrt(K.diagonal())
                K = K / np.outer(s, s)
            g.same('{} in the set'.format(m), km.full, K, 1e-12 * (1 + K))
            refs.append(K)
        if case['kind'] == 'none':
            continue
        w = case['w'][:len(refs)]
        if case['kind'] == 'weighted':
            ck = base.WeightedAverageKernel(ks, w)
            R = sum(a * K for a, K in zip(w, refs))
        else:
            ck = {'sum': base.SumKernel, 'product': base.ProductKernel,
                  'average': base.AverageKernel}[case['kind']](ks)
            R = {'sum': sum(refs), 'average': sum(refs) / len(refs),
                 'product': functools.reduce(np.multiply, refs)}[case['kind']]
        ck.fit()
        g.same(case['kind'], ck.composite_KM, R, 1e-10 * (1 + np.abs(R)))
    ctx.label(case['kind'])
    ctx.interesting(len(case['samples'][0]) > 1)


# ---------------------------------------------------------------------------------------------
# callables

HOW = ('def', 'lambda', 'method', 'object', 'partial', 'kwonly', 'varargs', 'static', 'named',
       'nested')
PARAMS = (('a', 'w', 'degree', 'func', 'params', 'x_', 'flag'))


class Recorder:
    def __init__(self):
        self.log = []

    def note(self, x, y, params, out):
        self.log.append((x, y, params, out))
        return out


def value_of(x, y, params):
    s = 0.0
    for v in params.values():
        if isinstance(v, (int, float)):
            s += v
        elif isinstance(v, (list, tuple)):
            s += len(v)
    return float(np.dot(np.asarray(x, dtype='f8'), np.asarray(y, dtype='f8'))) + s


def make_callable(how, rec):
    def core(x, y, **params):
        return rec.note(x, y, params, value_of(x, y, params))
    if how in ('def', 'named'):
        return core
    if how == 'lambda':
        return lambda u, v, **p: core(u, v, **p)
    if how == 'varargs':
        def va(x, y, *args, **kw):
            assert not args
            return core(x, y, **kw)
        return va
    if how == 'kwonly':
        def kwonly(x, y, *, a=None, w=None, degree=None, func=None, params=None, x_=None,
                   flag=None):
            given = dict(a=a, w=w, degree=degree, func=func, params=params, x_=x_, flag=flag)
            return core(x, y, **{k: v for k, v in given.items() if v is not None})
        return kwonly
    if how == 'partial':
        def three(marker, x, y, **p):
            assert marker == 'm'
            return core(x, y, **p)
        return functools.partial(three, 'm')
    if how == 'nested':
        @functools.wraps(core)
        def outer(*args, **kw):
            return core(*args, **kw)
        return outer

    class Obj:
        def __call__(self, x, y, **p):
            return core(x, y, **p)

        def meth(self, x, y, **p):
            return core(x, y, **p)

        @staticmethod
        def stat(x, y, **p):
            return core(x, y, **p)

    return {'object': Obj(), 'method': Obj().meth, 'static': Obj.stat}[how]


@st.composite
def callable_cases(draw):
    params = draw(st.dictionaries(
        st.sampled_from(PARAMS),
        st.one_of(g.eighths, st.integers(-4, 4), st.booleans(), st.sampled_from(('txt', '')),
                  st.lists(st.integers(0, 3), max_size=3)), max_size=3))
    x = draw(g.samples(max_n=6, max_d=4, layouts=True))
    two = draw(st.booleans())
    c = dict(how=draw(st.sampled_from(HOW)), params=params, x=x,
             y=draw(g.samples(max_n=5, d=x['d'])) if two else None,
             normalized=draw(st.booleans()),
             ops=draw(st.lists(hist.weighted(view=(3, st.sampled_from(OPS)),
                                             sel=(2, hist.selection(3))), max_size=4)))
    return c


def run_callable(case, ctx):
    from kernelmethods.base import BaseKernelFunction, KernelFromCallable, KernelMatrix
    rec = Recorder()
    func = make_callable(case['how'], rec)
    params = dict(case['params'])
    kw = dict(name='mine') if case['how'] == 'named' else {}
    k = KernelFromCallable(func, **kw, **params)
    g.require(isinstance(k, BaseKernelFunction), 'not a kernel function')
    if case['how'] == 'named':
        g.require(k.name == 'mine', 'name {!r}', k.name)
    X = g.build(case['x'])
    Y = None if case['y'] is None else g.build(case['y'])
    a, b = X[0], (X if Y is None else Y)[-1]
    for u, v in ((a, b), (b, a), (a.tolist(), tuple(b.tolist())), ('odd', 'objects')):
        if isinstance(u, str):
            probe = object()
            k2 = KernelFromCallable(lambda x, y: (probe, x, y))
            got = k2(u, v)
            g.require(got[0] is probe and got[1] is u and got[2] is v,
                      'the result or arguments of the callable are altered: {!r}', got)
            continue
        rec.log.clear()
        out = k(u, v)
        g.require(len(rec.log) == 1, '{} calls of the function', len(rec.log))
        x, y, p, r = rec.log[0]
        g.require(x is u and y is v, 'the vectors are not passed on unchanged')
        g.require(p == params and list(map(type, p.values())) == list(map(type, [params[q] for q in p])),
                  'parameters passed {!r} instead of {!r}', p, params)
        g.require(out is r, 'returned {!r} instead of {!r}', out, r)
    # through a kernel matrix
    def gram(A, B):
        V = np.array([[value_of(s, t, params) for t in B] for s in A], dtype=LD)
        V = V.reshape(len(A), len(B))
        mag = np.abs(A.astype(LD)) @ np.abs(B.astype(LD)).T
        return V, LD(1e-14) * (mag + 20)

    def diag(A):
        V, T = gram(A, A)
        return V.diagonal(), T.diagonal()

    model = hist.Model(X, Y, gram, diag)
    km = KernelMatrix(k, normalized=case['normalized'])
    if Y is None:
        km.attach_to(X)
    else:
        km.attach_to(X, sample_two=Y, name_two='two')
    rec.log.clear()
    for op in case['ops']:
        try:
            if isinstance(op, str):
                hist.apply_view(km, op, model, case['normalized'])
            else:
                hist.apply_selection(km, op, model)
        except hist.Refused:
            break
    kinds = {X.dtype, (X if Y is None else Y).dtype}
    for x, y, p, _ in rec.log:
        g.require(isinstance(x, np.ndarray) and x.dtype in kinds and x.shape == (X.shape[1],),
                  'the function received {!r} instead of a row', x)
        g.require(p == params, 'parameters passed {!r} instead of {!r}', p, params)
    ctx.label(case['how'], 'params' if params else 'no params')
    ctx.interesting(bool(params) or case['how'] not in ('def', 'lambda'))


SUBS = [
    Sub('pairs', pair_cases, run_pair, n=5000, rule='some but not all positions match'),
    Sub('matrices', matrix_cases, run_matrix, n=3000, rule='matrix with different values'),
    Sub('sets', set_cases, run_set, n=1500, rule='more than one sample'),
    Sub('callables', callable_cases, run_callable, n=2500,
        rule='bound parameters or a callable other than a plain function'),
]
