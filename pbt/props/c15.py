"""Oracle: the list of kernels a bucket must contain, compared by behaviour: class, values on probe
vectors (reference formulas) and normalization of the attached matrices."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist

PROBE = np.array([[0.3, 0.9, 0.2], [0.7, 0.1, 0.4], [0.25, 0.5, 1.0], [0.6, 0.05, 0.8]])
PARAMS = (('poly', 'degree'), ('gaussian', 'sigma'), ('laplacian', 'gamma'), ('sigmoid', 'gamma'),
          ('sigmoid', 'offset'))
KW = ('poly_degree_values', 'rbf_sigma_values', 'laplace_gamma_values', 'sigmoid_gamma_values',
      'sigmoid_offset_values')
P2 = lambda lo, hi: [2.0 ** e for e in range(lo, hi, 2)]  # noqa
GRIDS = {'exhaustive': [[2, 3, 4], P2(-5, 6), P2(-5, 7), P2(-5, 7), [-2.0, 1.0, 2.0]],
         'light': [[2, 3], P2(-3, 3), P2(-3, 3), P2(-3, 7), [1.0]],
         'linear_only': [None] * 5}


def specs_of(grids):
    out = [{'k': 'linear'}]
    for (k, p), vals in zip(PARAMS, grids):
        out += [{'k': k, p: v} for v in (vals if vals is not None else [])]
    return out


def check_bucket(kb, specs, normalized, attach=True):
    g.require(len(kb) == len(specs) and kb.size == len(specs), 'bucket has {} kernels, expected {}',
              len(kb), len(specs))
    X, Y = PROBE[:2], PROBE[2:]
    for i, (km, spec) in enumerate(zip(list(kb), specs)):
        what = 'kernel {} ({})'.format(i, spec)
        k = km.kernel
        if spec['k'] != 'custom':
            g.require(isinstance(k, g.kernel_class(spec['k'])), '{} is a {}', what,
                      type(k).__name__)
        V, T = g.ref_gram(spec, X, Y)
        got = np.array([[k(x, y) for y in Y] for x in X], dtype='f8')
        g.same(what, got, V, T)
    if attach:
        kb.attach_to(PROBE)
        for i, (km, spec) in enumerate(zip(list(kb), specs)):
            model = hist.spec_model(spec, PROBE)
            if model.verdict == 'ok' or not normalized:
                try:
                    hist.apply_view(km, 'full', model, normalized)
                except hist.Refused:
                    pass


def shape(vals, how):
    if vals is None:
        return None
    return {'list': list, 'tuple': tuple, 'arr': np.array}[how](vals)


forms = st.sampled_from(('list', 'tuple', 'arr'))
sigmas = st.one_of(*(st.lists(g._fparam(0.1, 16), min_size=1, max_size=k) for k in (4, 4, 12)))


@st.composite
def cases(draw):
    grids = []
    for k, p in PARAMS:
        if draw(st.integers(0, 3)) == 0:
            grids.append(None)
        elif p == 'degree':
            grids.append(draw(st.lists(st.integers(1, 6), min_size=1, max_size=7)))
        elif p == 'offset':
            grids.append(draw(st.lists(g.eighths, min_size=1, max_size=7)))
        else:
            grids.append(draw(sigmas))
    adds = []
    for _ in range(draw(st.integers(0, 3))):
        what = draw(st.sampled_from(('chi2', 'hadamard', 'laplacian', 'gaussian', 'badvalue',
                                     'badparam', 'none', 'notkernel', 'empty', 'scalar', 'text')))
        adds.append([what, draw(sigmas), draw(forms), draw(st.integers(0, 3))])
    return dict(grids=grids, form=draw(forms), normalized=draw(st.booleans()),
                skip=draw(st.booleans()), adds=adds, omit=draw(st.booleans()))


UNUSABLE = (('hadamard', 'alpha', 0.0), ('hadamard', 'alpha', 'x'), ('gaussian', 'sigma', None),
            ('hadamard', 'alpha', None), ('gaussian', 'sigma', 'wide'))
NOT_KERNELS = ('instance', 'function', 'matrix', 'str')


def run(case, ctx):
    from kernelmethods.base import KernelMatrix
    from kernelmethods.config import KernelMethodsWarning
    from kernelmethods.numeric_kernels import LinearKernel
    from kernelmethods.sampling import KernelBucket
    kw = {n: shape(v, case['form']) for n, v in zip(KW, case['grids'])}
    specs = specs_of(case['grids'])
    if not (case['omit'] and case['normalized']):
        kw['normalize_kernels'] = case['normalized']
    kb = KernelBucket(skip_input_checks=case['skip'], name='mine', **kw)
    g.require(kb.name == 'mine', 'name is {!r}', kb.name)
    check_bucket(kb, specs, case['normalized'], attach=False)
    for what, vals, form, which in case['adds']:
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter('always')
            held = list(kb)
            if what in ('chi2', 'laplacian'):
                kb.add_parametrized_kernels(g.kernel_class(what), 'gamma', shape(vals, form))
                specs += [{'k': what, 'gamma': v} for v in vals]
            elif what == 'gaussian':
                kb.add_parametrized_kernels(g.kernel_class(what), 'sigma', shape(vals, form))
                specs += [{'k': what, 'sigma': v} for v in vals]
            elif what == 'hadamard':
                kb.add_parametrized_kernels(g.kernel_class(what), 'alpha', shape(vals, form))
                specs += [{'k': what, 'alpha': v} for v in vals]
            elif what == 'badvalue':  # e.g. zero exponents can not be used
                cls, p, wrong = UNUSABLE[(which + len(vals)) % len(UNUSABLE)]
                mixed = list(vals)
                mixed.insert(which % (len(mixed) + 1), wrong)
                kb.add_parametrized_kernels(
                    g.kernel_class(cls), p,
                    shape(mixed, form if isinstance(wrong, float) or form == 'tuple' else 'list'))
                specs += [{'k': cls, p: v} for v in vals]
                g.require(any(issubclass(w.category, KernelMethodsWarning) for w in log),
                          'no warning about the skipped value')
            elif what == 'badparam':
                kb.add_parametrized_kernels(g.kernel_class('laplacian'), 'nonsense', vals)
                g.require(any(issubclass(w.category, KernelMethodsWarning) for w in log),
                          'no warning about the skipped values')
            elif what == 'none':
                kb.add_parametrized_kernels(g.kernel_class('laplacian'), 'gamma', None)
            elif what == 'notkernel':
                bad = {'instance': LinearKernel(), 'function': lambda x, y: 1.0,
                       'matrix': KernelMatrix, 'str': 'linear'}[NOT_KERNELS[which]]
                g.raises('adding ' + NOT_KERNELS[which], Exception, kb.add_parametrized_kernels,
                         bad, 'gamma', vals)
            else:
                bad = {'empty': [], 'scalar': 2.0, 'text': 'abc'}[what]
                g.raises('values {!r}'.format(bad), Exception, kb.add_parametrized_kernels,
                         g.kernel_class('laplacian'), 'gamma', bad)
            g.require(all(a is b for a, b in zip(list(kb), held)), 'existing kernels replaced')
        check_bucket(kb, specs, case['normalized'], attach=False)
        ctx.label(what)
    check_bucket(kb, specs, case['normalized'])
    ctx.label('normalized' if case['normalized'] else 'plain')
    ctx.interesting(len(specs) > 2)


@st.composite
def strategies(draw):
    return dict(name=draw(st.sampled_from(('exhaustive', 'light', 'linear_only', 'Exhaustive',
                                           'LIGHT', 'bucket', 'set', 'default', 'heavy', '',
                                           'linear', 'class'))),
                normalized=draw(st.booleans()), skip=draw(st.booleans()))


def run_strategy(case, ctx):
    from kernelmethods.base import KernelSet
    from kernelmethods.sampling import KernelBucket, make_kernel_bucket
    name, norm = case['name'], case['normalized']
    kw = dict(normalize_kernels=norm, skip_input_checks=case['skip'])
    if name in ('bucket', 'set'):
        kb = KernelBucket(poly_degree_values=[2], rbf_sigma_values=None) if name == 'bucket' \
            else KernelSet([np.eye(3)])
        held = list(kb)
        out = make_kernel_bucket(kb, **kw)
        g.require(out is kb, 'an existing bucket is not returned as is')
        g.require(len(kb) == len(held) and all(a is b for a, b in zip(kb, held)),
                  'an existing bucket was changed')
    elif name in ('heavy', '', 'linear'):
        g.raises('strategy {!r}'.format(name), ValueError, make_kernel_bucket, name, **kw)
    elif name == 'default':
        check_bucket(make_kernel_bucket(), specs_of(GRIDS['exhaustive']), True)
    elif name == 'class':
        check_bucket(KernelBucket(**kw), specs_of(GRIDS['exhaustive']), norm)
    else:
        check_bucket(make_kernel_bucket(name, **kw), specs_of(GRIDS[name.lower()]), norm)
    ctx.label(name)
    ctx.interesting()


SUBS = [
    Sub('buckets', cases, run, n=3000, rule='more than two kernels in the bucket'),
    Sub('strategies', strategies, run_strategy, n=150, rule='every case'),
]
