"""Stateful, model-based: generated histories on an object that is duplicated (deep copy or pickle)
at some point; both are then driven apart, each compared with its own model. Estimators: predictions
before and after, and after refitting either side."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist
from pbt.props import c20

HOW = ('deepcopy', 'pickle', 'pickle2', 'pickle5')


def picklable(spec):
    return spec['k'] != 'custom' or spec['how'] == 'callable'


def duplicate(obj, how):
    if how == 'deepcopy':
        return copy.deepcopy(obj)
    return pickle.loads(pickle.dumps(obj, {'pickle': None, 'pickle2': 2, 'pickle5': 5}[how]))


# ---------------------------------------------------------------------------------------------
# kernel matrices

@st.composite
def cases(draw):
    k = draw(g.kernels())
    kw = g.needs(k)
    d = draw(g.sizes(1, 4))
    pool = draw(st.lists(g.samples(d=d, max_n=7, **kw), min_size=2, max_size=3))
    idx = st.integers(0, len(pool) - 1)
    attach = st.one_of(idx.map(lambda i: ['attach', i]),
                       st.tuples(idx, idx).map(lambda t: ['attach2', t[0], t[1]]))
    op = hist.weighted(view=(6, st.sampled_from(hist.VIEWS).map(lambda v: ['view', v])),
                       sel=(3, hist.selection().map(lambda s: ['sel', s])), attach=(2, attach),
                       attr=(2, st.tuples(st.sampled_from('ab'), st.integers(0, 9)).map(
                           lambda t: ['attr', *t])))
    after = st.tuples(st.integers(0, 1), op).map(lambda t: [t[0], t[1]])
    return dict(kernel=k, pool=pool, normalized=draw(st.booleans()), how=draw(st.sampled_from(HOW)),
                first=[draw(attach)] if draw(st.integers(0, 6)) else [],
                before=draw(st.lists(op, max_size=5)),
                reuse=draw(st.integers(0, 2)) == 0, reattach=draw(attach),
                after=draw(st.lists(after, min_size=1, max_size=8)), s=draw(g.seeds))


class Side:
    """One of the two objects with its model."""

    def __init__(self, case, km, pool, model=None, attrs=None):
        self.case, self.km, self.pool, self.model = case, km, pool, model
        self.attrs = dict(attrs or {})

    def do(self, op):
        if op[0] in ('attach', 'attach2'):
            A = self.pool[op[1]]
            B = self.pool[op[2]] if op[0] == 'attach2' else None
            if B is None:
                self.km.attach_to(A)
            else:
                self.km.attach_to(A, sample_two=B, name_two='two')
            self.model = hist.spec_model(self.case['kernel'], A.copy(),
                                         None if B is None else B.copy())
            self.attrs = {}
        elif self.model is None:
            return
        elif op[0] == 'view':
            try:
                hist.apply_view(self.km, op[1], self.model, self.case['normalized'])
            except hist.Refused:
                pass
        elif op[0] == 'sel':
            hist.apply_selection(self.km, op[1], self.model)
        else:
            self.km.set_attr(op[1], op[2])
            self.attrs[op[1]] = op[2]

    def check(self):
        for name in 'ab':
            g.require(self.km.get_attr(name, 'unset') == self.attrs.get(name, 'unset'),
                      'attribute {} is {!r}, expected {!r}', name, self.km.get_attr(name, 'unset'),
                      self.attrs.get(name, 'unset'))
        if self.model is None:
            g.require(self.km.num_samples is None, 'num_samples {!r} without a sample',
                      self.km.num_samples)
            return
        for v in ('sizes', 'full', 'frob'):
            self.do(['view', v])


def run(case, ctx):
    from kernelmethods.base import KernelMatrix
    how = case['how'] if picklable(case['kernel']) else 'deepcopy'
    pool = [g.build(s) for s in case['pool']]
    one = Side(case, KernelMatrix(g.make_kernel(case['kernel']), normalized=case['normalized'],
                                  name='K7'), pool)
    for op in case['first'] + case['before']:
        one.do(op)
    km = duplicate(one.km, how)
    g.require(km is not one.km and type(km) is type(one.km), '{} gives {!r}', how, type(km))
    two_model, one_attrs = one.model, dict(one.attrs)
    g.require(str(km) == str(one.km), '{}: text {!r} instead of {!r}', how, str(km), str(one.km))
    if case['reuse'] and case['after']:
        # arrays of the original given up and reused by their owner: the original is attached anew
        own = [a.copy() for a in pool]
        for a in pool:
            if a.flags.writeable:
                a[...] = a[::-1].copy() * 2
        one.pool = own
        one.do(case['reattach'])
        two = Side(case, km, own, two_model, one_attrs)
    else:
        two = Side(case, km, pool, two_model, one_attrs)
    sides = (one, two)
    for who, op in case['after']:
        sides[who].do(op)
    for s in sides:
        s.check()
    ctx.label(how, case['kernel']['k'], 'unattached' if one.model is None else 'attached')
    ctx.interesting(one.model is not None and two.model is not None)


# ---------------------------------------------------------------------------------------------
# kernel functions, precomputed and constant matrices, sets, buckets, composites

WHAT = ('kernel', 'precomputed', 'constant', 'set', 'bucket', 'composite')


@st.composite
def container_cases(draw):
    return dict(what=draw(st.sampled_from(WHAT)), how=draw(st.sampled_from(HOW)),
                n=draw(st.integers(1, 6)), s=draw(g.seeds), touch=draw(st.booleans()),
                members=draw(st.lists(g.tame(), min_size=2, max_size=4)),
                kernel=draw(g.kernels(wide=True)), normalized=draw(st.booleans()),
                attached=draw(st.booleans()), comp=draw(st.integers(0, 3)),
                side=draw(st.booleans()))


def run_container(case, ctx):
    from kernelmethods import base as B
    from kernelmethods.sampling import KernelBucket
    r = np.random.RandomState(case['s'])
    n, what, how = case['n'], case['what'], case['how']
    X, Z = r.rand(n, 3) + 0.2, r.rand(n, 3) + 0.2
    if what == 'kernel':
        k = g.make_kernel(case['kernel'])
        if not picklable(case['kernel']):
            how = 'deepcopy'
        c = duplicate(k, how)
        g.require(str(c) == str(k), 'text {!r} instead of {!r}', str(c), str(k))
        g.require(c.name == k.name, 'name {!r} instead of {!r}', c.name, k.name)
        for a in X:
            for b in Z:
                u, v = k(a, b), c(a, b)
                g.require(u == v or (u != u and v != v), 'value {!r} instead of {!r}', v, u)
    elif what in ('precomputed', 'constant'):
        K = X @ X.T
        k = B.KernelMatrixPrecomputed(K, name='P') if what == 'precomputed' else \
            B.ConstantKernelMatrix(n, 2.5, name='P')
        if case['touch']:
            k.full
        c = duplicate(k, how)
        ref = K if what == 'precomputed' else np.full((n, n), 2.5)
        for o in (c, k):
            g.require(np.array_equal(o.full, ref), 'full matrix differs')
            g.require(np.array_equal(np.ravel(o.diag), ref.diagonal()), 'diagonal differs')
            g.require(o.num_samples == n and o.size == n, 'size {!r}', o.size)
            g.require(np.array_equal(o[n - 1, 0], ref[n - 1, 0]) or
                      np.ravel(o[n - 1, 0])[0] == ref[n - 1, 0], 'element differs')
        g.require(str(c) == str(k), 'text {!r} instead of {!r}', str(c), str(k))
    else:
        run_set(case, how, X, Z)
    ctx.label(what, how)
    ctx.interesting()


def run_set(case, how, X, Z):
    from kernelmethods import base as B
    from kernelmethods.sampling import KernelBucket
    what = case['what']
    if what == 'bucket':
        ks = KernelBucket(poly_degree_values=[2], rbf_sigma_values=[1.5, 0.5],
                          laplace_gamma_values=None, sigmoid_gamma_values=None,
                          sigmoid_offset_values=None, normalize_kernels=case['normalized'])
        specs = [{'k': 'linear'}, {'k': 'poly', 'degree': 2}, {'k': 'gaussian', 'sigma': 1.5},
                 {'k': 'gaussian', 'sigma': 0.5}]
    else:
        specs = case['members']
        ks = B.KernelSet([B.KernelMatrix(g.make_kernel(s), normalized=case['normalized'])
                          for s in specs], name='S7')
    attached = case['attached'] or what == 'composite'
    if attached:
        ks.attach_to(X, name='x7')
        ks.set_attr('tag', list(range(len(specs))))
        if case['touch']:
            for m in list(ks)[:2]:
                m.full
    comp = None
    if what == 'composite':
        cls = (B.SumKernel, B.ProductKernel, B.AverageKernel)[case['comp'] % 3]
        comp = cls(ks)
        comp.fit()
        want = np.array(comp.full)
        dup = duplicate(comp, how)
        g.require(str(dup) == str(comp), 'text {!r} instead of {!r}', str(dup), str(comp))
        g.require(np.array_equal(dup.full, want), 'composite differs')
        ks.attach_to(Z)
        g.require(np.array_equal(dup.full, want), 'composite copy changed with the original set')
        dup.fit()
        g.same('refitted copy', dup.full, want, 1e-12 * (1 + np.abs(want)))
        return
    other = duplicate(ks, how)
    g.require(type(other) is type(ks) and len(other) == len(ks) == len(specs), '{} of {}',
              type(other), len(other))
    g.require(str(other) == str(ks), 'text {!r} instead of {!r}', str(other), str(ks))
    g.require(other.num_samples == ks.num_samples, 'num_samples {!r}', other.num_samples)
    if attached:
        g.require(list(other.get_attr('tag')) == list(range(len(specs))), 'attributes {!r}',
                  other.get_attr('tag'))
    moved, kept = (other, ks) if case['side'] else (ks, other)
    moved.attach_to(Z)
    for m, spec in zip(moved, specs):
        hist.apply_view(m, 'full', hist.spec_model(spec, Z), case['normalized'])
    for m, spec in zip(kept, specs):
        if attached:
            hist.apply_view(m, 'full', hist.spec_model(spec, X), case['normalized'])
        else:
            g.require(m.num_samples is None, 'attached along with the other')
    if attached:
        g.require(list(kept.get_attr('tag')) == list(range(len(specs))), 'attributes {!r}',
                  kept.get_attr('tag'))
    moved.append(moved[0])
    g.require(len(kept) == len(specs), 'appended to both')


# ---------------------------------------------------------------------------------------------
# estimators

@st.composite
def estimator_cases(draw):
    name = draw(st.sampled_from(c20.ESTS))
    return dict(est=name, kernels=[draw(g.tame(c20.KINDS)) for _ in range(3)],
                init=draw(c20.settings(name)), data=[draw(c20.datasets()) for _ in range(2)],
                how=draw(st.sampled_from(HOW)), predicted=draw(st.booleans()),
                side=draw(st.booleans()), fitted=draw(st.integers(0, 5)) > 0)


def run_estimator(case, ctx):
    from sklearn.exceptions import NotFittedError
    world = c20.World(case)
    how = case['how'] if all(picklable(s) for s in case['kernels']) else 'deepcopy'
    params = world.values(case['init'])
    if world.optimal:
        params['method'] = 'align/corr'
        params.setdefault('k_bucket', 'linear_only')
    else:
        params.setdefault('k_func', world.kernels[0])
        params.setdefault('normalized', True)
    est = world.cls(**params)
    data = [c20.dataset(d, world.reg, not world.optimal) for d in case['data']]
    if not all(world.usable(est.get_params(), d[0]) for d in data):
        return
    X, y, w, T = data[0]
    if not case['fitted']:
        other = duplicate(est, how)
        g.raises('predict of an unfitted copy', NotFittedError, other.predict, T)
        other.fit(X, y, sample_weight=w)
        est.fit(X, y, sample_weight=w)
        c20.closes('prediction of a copy', other.predict(T), est.predict(T), world.reg)
        ctx.label(how, world.name, 'unfitted')
        return
    est.fit(X, y, sample_weight=w)
    if case['predicted']:
        est.predict(T[:3])
    other = duplicate(est, how)
    want = np.array(est.predict(T))
    c20.closes('prediction of a copy', other.predict(T), want, world.reg)
    moved, kept = (other, est) if case['side'] else (est, other)
    X2, y2, w2, T2 = data[1]
    moved.fit(X2, y2, sample_weight=w2)
    ref = world.cls(**params)
    ref.fit(X2, y2, sample_weight=w2)
    c20.closes('prediction of the refitted one', moved.predict(T2), ref.predict(T2), world.reg)
    c20.closes('prediction of the other one', kept.predict(T), want, world.reg)
    ctx.label(how, world.name, 'fitted')
    ctx.interesting()


SUBS = [
    Sub('matrices', cases, run, n=4000, rule='both objects are attached in the end'),
    Sub('containers', container_cases, run_container, n=2500, rule='every case'),
    Sub('estimators', estimator_cases, run_estimator, n=500, rule='a fitted estimator was copied'),
]
