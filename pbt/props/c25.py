"""Oracle: byte-wise snapshots of every input around generated operations (read-only and
non-contiguous arrays included); for instances, a separate model (or an isolated twin) per instance
while operations on several instances that share kernels, samples or buckets are interleaved."""
import collections
import copy

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, Violation
from pbt import gens as g
from pbt import hist, mats, svm

LD = np.longdouble
Public = collections.namedtuple('Public', 'text attrs')


class Snapshot:
    """Remembers objects handed to the code under test."""

    def __init__(self):
        self.items = []

    def add(self, what, obj):
        self.items.append((what, obj, self.freeze(obj)))
        return obj

    def freeze(self, obj):
        if isinstance(obj, np.ndarray):
            base = obj
            while isinstance(base.base, np.ndarray):
                base = base.base
            return ('arr', obj.shape, obj.strides, obj.dtype.str, obj.flags.writeable,
                    obj.tobytes(), base.tobytes())
        if isinstance(obj, (list, tuple, dict)):
            return copy.deepcopy(obj)
        # what a user can see of a kernel: its public parameters and its description
        return Public(str(obj), {k: repr(v) for k, v in vars(obj).items() if k[:1] != '_'})

    def verify(self, op):
        for what, obj, before in self.items:
            now = self.freeze(obj)
            if isinstance(before, Public):  # attributes added are not a modification
                now = Public(now.text, {k: v for k, v in now.attrs.items() if k in before.attrs})
            if now != before:
                raise Violation('{} modified the {} passed in'.format(op, what))


def quiet(func):
    """The operation may be refused; only its effect on the inputs is of interest."""
    try:
        return func()
    except Exception:
        return None


# ---------------------------------------------------------------------------------------------
# functions and kernel matrices

@st.composite
def matrix_cases(draw):
    spec = draw(g.kernels())
    d = draw(g.sizes(1, 5))
    kw = g.needs(spec)
    two = draw(st.booleans())
    return dict(kernel=spec, x=draw(g.samples(d=d, max_n=7, **kw)),
                y=draw(g.samples(d=d, max_n=7, **kw)) if two else None,
                normalized=draw(st.booleans()),
                ops=draw(st.lists(hist.weighted(view=(3, st.sampled_from(hist.VIEWS)),
                                                sel=(1, hist.selection(3))),
                                  min_size=1, max_size=5)))


def read_km(km, op):
    """Performs an operation and returns what it gives, without judging it."""
    if not isinstance(op, str):
        obj, _, _ = hist.resolve_selection(op, km.shape)
        return km[obj]
    return {'full': lambda: km.full, 'sparse': lambda: km.full_sparse, 'diagonal': km.diagonal,
            'normed': lambda: km.normed_km, 'normalize': km.normalize, 'centered':
            lambda: km.centered, 'center': km.center, 'frob': lambda: km.frob_norm, 'sizes':
            lambda: (km.size, km.shape, km.num_samples)}[op]()


def run_matrix(case, ctx):
    from kernelmethods.base import KernelMatrix
    snap = Snapshot()
    X = snap.add('first sample', g.build(case['x']))
    Y = None if case['y'] is None else snap.add('second sample', g.build(case['y']))
    k = snap.add('kernel function', g.make_kernel(case['kernel']))
    quiet(lambda: k(X[0], (X if Y is None else Y)[-1]))
    snap.verify('evaluating the kernel')
    v = snap.add('list', X[0].tolist())
    w = snap.add('list', (X if Y is None else Y)[-1].tolist())
    if not case['kernel'].get('skip') and case['kernel']['k'] != 'custom':
        quiet(lambda: k(v, w))
        snap.verify('evaluating the kernel on lists')
    km = KernelMatrix(k, normalized=case['normalized'])
    if Y is None:
        km.attach_to(X)
    else:
        km.attach_to(X, sample_two=Y, name_two='two')
    snap.verify('attach_to')
    for op in case['ops']:
        quiet(lambda: read_km(km, op))
        snap.verify('{} of the kernel matrix'.format(op))
        ctx.label(op if isinstance(op, str) else 'selection')
    ctx.label(case['x']['l'])
    ctx.interesting(X.size > 1)


FUNCS = ('center', 'normalize', 'normalize2', 'product', 'norm', 'align', 'align_c', 'psd',
         'contains', 'ideal', 'corr', 'minmax', 'precomputed', 'composite', 'lincomb', 'pairwise',
         'set', 'rank')


@st.composite
def func_cases(draw):
    a = draw(mats.mats(max_n=6, big_n=20))
    return dict(a=a, b=draw(mats.mats(n=a['n'])), funcs=draw(st.lists(st.sampled_from(FUNCS),
                                                                      min_size=1, max_size=6)),
                w=draw(st.lists(g.eighths, min_size=2, max_size=2)),
                form=draw(st.sampled_from(('list', 'arr', 'ro', 'tuple'))),
                t=draw(st.lists(st.integers(-3, 3), min_size=20, max_size=20)),
                tt=draw(st.sampled_from(('f8', 'i8', 'f4'))))


def run_func(case, ctx):
    from kernelmethods import base, operations as ops, ranking, sampling, utils
    snap = Snapshot()
    A = snap.add('first matrix', mats.build(case['a']))
    B = snap.add('second matrix', mats.build(case['b']))
    n = A.shape[0]
    sym = A + A.T
    sym.flags.writeable = case['form'] != 'ro'
    S = snap.add('matrix', sym)
    P = snap.add('second symmetric matrix', (B.astype('f8') @ B.astype('f8').T) + np.eye(n))
    dg = snap.add('diagonal', np.abs(B.diagonal().astype('f8')) + 1)
    wt = {'list': list, 'tuple': tuple, 'arr': np.array, 'ro': np.array}[case['form']](case['w'])
    if case['form'] == 'ro':
        wt.flags.writeable = False
    snap.add('weights', wt)
    tv = (case['t'] * 4)[:n]
    ty = snap.add('targets', np.array(tv, dtype=case['tt']) if case['form'] in ('arr', 'ro')
                  else list(tv))
    vals = snap.add('values', [float(v) for v in tv])
    pair = base.KernelSet([S, P])
    for f in case['funcs']:
        call = {
            'center': lambda: ops.center_km(A), 'normalize': lambda: ops.normalize_km(P),
            'normalize2': lambda: ops.normalize_km_2sample(A, dg, dg),
            'product': lambda: ops.frobenius_product(A, B), 'norm': lambda: ops.frobenius_norm(A),
            'align': lambda: ops.alignment_centered(A, B, value_if_zero_division=0.0),
            'align_c': lambda: ops.alignment_centered(A, B, value_if_zero_division=0.0,
                                                      centered_already=True),
            'psd': lambda: ops.is_PSD(S), 'contains': lambda: utils.contains_nan_inf(A),
            'ideal': lambda: sampling.ideal_kernel(ty),
            'corr': lambda: sampling.correlation_km(A, B),
            'minmax': lambda: utils.min_max_scale(vals),
            'precomputed': lambda: (base.KernelMatrixPrecomputed(S).full,
                                    base.KernelMatrixPrecomputed(S)[0, :]),
            'composite': lambda: [c.fit() or c.full for c in (
                base.SumKernel(pair), base.ProductKernel(pair), base.AverageKernel(pair),
                base.WeightedAverageKernel(pair, wt))] + [base.SumKernel(pair).fit(wt)],
            'lincomb': lambda: ops.linear_combination(pair, wt, norm_weights=True),
            'pairwise': lambda: sampling.pairwise_similarity(pair, metric='align'),
            'set': lambda: (pair.take([0]), [m.full for m in pair], str(pair)),
            'rank': lambda: ranking.rank_kernels(pair, ty, method='align/corr'),
        }[f]
        quiet(call)
        snap.verify(f)
        g.require(len(pair) == 2 and np.array_equal(pair[0].full, S) and
                  np.array_equal(pair[1].full, P),
                  '{} changed the kernel set', f)
        ctx.label(f)
    ctx.interesting(n > 1)


# ---------------------------------------------------------------------------------------------
# collections handed over

@st.composite
def coll_cases(draw):
    k = draw(st.integers(1, 5))
    return dict(k=k, pre=draw(st.booleans()), n=draw(st.integers(2, 5)), s=draw(g.seeds),
                ops=draw(st.lists(st.sampled_from(('append', 'extend', 'take', 'funcs', 'attr',
                                                   'attach', 'another', 'index', 'rank')),
                                  min_size=1, max_size=6)),
                sel=draw(st.lists(st.integers(0, k - 1), min_size=1, max_size=4)),
                how=draw(st.sampled_from(('list', 'arr'))),
                grid=draw(st.lists(st.integers(1, 5), min_size=1, max_size=4)))


def run_coll(case, ctx):
    """Lists given by the user hold the same objects afterwards."""
    from kernelmethods import base, sampling
    r = np.random.RandomState(case['s'])
    X = r.rand(case['n'], 2)

    def member():
        if case['pre']:
            return base.KernelMatrixPrecomputed(np.eye(case['n']) * r.rand())
        km = base.KernelMatrix(g.make_kernel({'k': 'linear'}), normalized=False)
        km.attach_to(X)
        return km

    given = [member() for _ in range(case['k'])]
    kept = list(given)
    first = base.KernelSet(given, name='first')
    second = base.KernelSet(given, name='second')
    sel = list(case['sel']) if case['how'] == 'list' else np.array(case['sel'])
    values = ['v%d' % i for i in range(case['k'])]
    grid = list(case['grid'])
    extra = base.KernelSet([member()])
    grown = case['k']
    for op in case['ops']:
        if op == 'append':
            first.append(member())
            grown += 1
        elif op == 'extend':
            first.extend(extra)
            grown += 1
        elif op == 'take':
            got = first.take(sel)
            got.append(member())
        elif op == 'funcs' and not case['pre']:
            first.get_kernel_funcs(sel)
        elif op == 'attr' and not case['pre']:
            if first.size == len(values):
                first.set_attr('a', values)
        elif op == 'attach' and not case['pre']:
            first.attach_to(X)
        elif op == 'another':
            third = base.KernelSet(kept)
            third.append(member())
        elif op == 'index':
            first[0]
        elif op == 'rank':
            kb = sampling.KernelBucket(poly_degree_values=grid, rbf_sigma_values=grid)
            kb.add_parametrized_kernels(type(g.make_kernel({'k': 'laplacian'})), 'gamma', grid)
        for what, lst in (('list', given), ('other list', kept)):
            g.require(len(lst) == case['k'] and all(a is b for a, b in zip(given, kept)),
                      '{} changed the {} of kernel matrices', op, what)
        g.require(list(sel) == case['sel'] and grid == case['grid'] and
                  values == ['v%d' % i for i in range(case['k'])], '{} changed its argument', op)
        g.require(len(second) == case['k'] and all(a is b for a, b in zip(second, kept)),
                  '{} on one set changed another made from the same list', op)
        g.require(len(first) == grown and len(extra) == 1, '{}: size {} instead of {}', op,
                  len(first), grown)
        ctx.label(op)
    # changing the list later does not matter either
    given.reverse()
    given.append(None)
    g.require(len(second) == case['k'] and all(a is b for a, b in zip(second, kept)),
              'a set follows later changes of the list it was made from')
    ctx.interesting(grown > case['k'] or case['k'] > 1)


# ---------------------------------------------------------------------------------------------
# estimators and ranking: inputs

METHODS = ('km', 'kmr', 'osvc', 'osvr', 'rank', 'rankcv', 'find')


@st.composite
def est_cases(draw):
    n = draw(g.about(8, 14))
    return dict(n=n, d=draw(st.integers(1, 3)), s=draw(g.seeds), what=draw(st.sampled_from(METHODS)),
                yform=draw(st.sampled_from(('list', 'arr', 'ro', 'f4', 'i1', 'f8', 'f8'))),
                layout=draw(st.sampled_from(g.LAYOUTS)), t=draw(st.sampled_from(('f8', 'f8', 'f4', 'i8'))),
                weights=draw(st.sampled_from((None, 'list', 'arr', 'ro'))),
                kernel=draw(g.tame()),
                normalized=draw(st.booleans()), cv=draw(st.integers(0, 3)) == 0)


def small_bucket():
    from kernelmethods.sampling import KernelBucket
    return KernelBucket(poly_degree_values=[2], rbf_sigma_values=[1.0, 4.0],
                        laplace_gamma_values=None, sigmoid_gamma_values=None,
                        sigmoid_offset_values=None)


def bucket_state(kb):
    return (kb.num_samples, kb.name, [id(m) for m in kb], [str(m) for m in kb],
            [repr(m.attributes()) for m in kb])


def run_est(case, ctx):
    from kernelmethods import algorithms as alg
    from kernelmethods import ranking
    r = np.random.RandomState(case['s'])
    n, d, what = case['n'], case['d'], case['what']
    snap = Snapshot()
    X = r.rand(n, d) * 4 + 1.2
    X = snap.add('training data', g.lay(X.astype(case['t']), case['layout']))
    T = snap.add('test data', g.lay((r.rand(5, d) * 4 + 1).astype(case['t']), case['layout']))
    lab = np.arange(n) % 2 if what not in ('kmr', 'osvr') else r.randint(0, 9, n)
    y = lab.tolist() if case['yform'] == 'list' else \
        lab.astype({'f4': 'f4', 'i1': 'i1', 'f8': 'f8'}.get(case['yform'], 'i8'))
    if case['yform'] == 'ro':
        y.flags.writeable = False
    snap.add('targets', y)
    w = None
    if case['weights']:
        w = r.rand(n) + 0.5
        w = w.tolist() if case['weights'] == 'list' else w
        if case['weights'] == 'ro':
            w.flags.writeable = False
        snap.add('sample weights', w)
    kb = small_bucket()
    if what in ('km', 'kmr'):
        k = snap.add('kernel function', g.make_kernel(case['kernel']))
        if not svm.calm(k, X, case['normalized']):
            return
        est = (alg.KernelMachine if what == 'km' else alg.KernelMachineRegressor)(
            k, normalized=case['normalized'])
    elif what in ('osvc', 'osvr'):
        state = bucket_state(kb)
        est = (alg.OptimalKernelSVC if what == 'osvc' else alg.OptimalKernelSVR)(
            k_bucket=kb, method='cv_risk' if case['cv'] else 'align/corr')
    else:
        held = list(kb)
        if what == 'find':
            out = ranking.find_optimal_kernel(kb, X, y, method='align/corr')
            g.require(any(out is m for m in held), 'the optimal kernel is not from the bucket')
        else:
            kb.attach_to(X)
            ranking.rank_kernels(kb, y, method='align/corr' if what == 'rank' else 'cv_risk')
        snap.verify(what)
        g.require(len(kb) == len(held) and all(a is b for a, b in zip(kb, held)),
                  'ranking changed the members of the bucket')
        ctx.label(what)
        ctx.interesting()
        return
    est.fit(X, y, sample_weight=w)
    snap.verify('fit')
    p = est.predict(T)
    snap.verify('predict')
    est.predict(X)
    est.score(X, y)
    snap.verify('predicting the training data')
    g.require(np.array_equal(p, est.predict(T)), 'prediction changed')
    if what in ('osvc', 'osvr'):
        g.require(bucket_state(kb) == state, 'fitting altered the bucket passed in')
        g.require(est.k_bucket is kb, 'the bucket parameter was replaced')
    else:
        g.require(est.k_func is k, 'the kernel parameter was replaced')
    ctx.label(what, case['layout'])
    ctx.interesting()


# ---------------------------------------------------------------------------------------------
# several kernel matrices side by side

@st.composite
def inter_cases(draw):
    d = draw(g.sizes(1, 4))
    kernels = [draw(g.kernels(skip=False)) for _ in range(draw(st.integers(1, 2)))]
    if len(kernels) == 2 and draw(st.integers(0, 2)) == 0:  # different ones that look the same
        kernels = [dict(k='custom', f=f, how='lambda', name='similarity')
                   for f in draw(st.permutations(sorted(g.CUSTOM)))[:2]]
    kw = {}
    for k in kernels:
        kw.update(g.needs(k))
    xs = [draw(g.samples(d=d, max_n=6, **kw)) for _ in range(draw(st.integers(1, 3)))]
    insts = [[draw(st.integers(0, len(kernels) - 1)), draw(st.booleans())]
             for _ in range(draw(st.integers(2, 4)))]
    ops = draw(st.lists(st.tuples(
        st.integers(0, len(insts) - 1),
        hist.weighted(view=(6, st.sampled_from(hist.VIEWS)), sel=(2, hist.selection(3)),
                      one=(3, st.integers(0, len(xs) - 1)),
                      two=(1, st.tuples(st.integers(0, len(xs) - 1),
                                        st.integers(0, len(xs) - 1)).map(list)),
                      attr=(1, st.tuples(st.sampled_from(('a', 'b')), st.integers(0, 5)).map(
                          lambda t: {'attr': list(t)})))).map(list), min_size=3, max_size=14))
    return dict(kernels=kernels, xs=xs, insts=insts, ops=ops)


def run_inter(case, ctx):
    from kernelmethods.base import KernelMatrix
    kernels = [g.make_kernel(k) for k in case['kernels']]
    snap = Snapshot()
    xs = [snap.add('sample {}'.format(i), g.build(x)) for i, x in enumerate(case['xs'])]
    kms = [KernelMatrix(kernels[k], normalized=nz) for k, nz in case['insts']]
    models = [None] * len(kms)
    attrs = [{} for _ in kms]
    cache = {}

    def model(k, a, b=None):
        key = (k, a, b)
        if key not in cache:
            cache[key] = hist.spec_model(case['kernels'][k], xs[a], None if b is None else xs[b])
        return cache[key]

    touched = set()
    for i, op in case['ops']:
        km, (k, nz) = kms[i], case['insts'][i]
        if isinstance(op, int):
            km.attach_to(xs[op])
            models[i] = model(k, op)
            attrs[i] = {}
        elif isinstance(op, list):
            km.attach_to(xs[op[0]], sample_two=xs[op[1]], name_two='two')
            models[i] = model(k, *op)
            attrs[i] = {}
        elif isinstance(op, dict) and 'attr' in op:
            km.set_attr(*op['attr'])
            attrs[i][op['attr'][0]] = op['attr'][1]
        elif models[i] is None:
            continue
        else:
            try:
                if isinstance(op, str):
                    hist.apply_view(km, op, models[i], nz)
                else:
                    hist.apply_selection(km, op, models[i])
                touched.add(i)
            except hist.Refused:
                pass
        for j, other in enumerate(kms):
            g.require(dict(other.attributes()) == attrs[j],
                      'attributes of matrix {} are {} instead of {} after an operation on matrix {}',
                      j, other.attributes(), attrs[j], i)
            if models[j] is not None:
                hist.check_sizes(other, models[j])
    snap.verify('a history on several matrices')
    for i, km in enumerate(kms):
        if models[i] is None:
            continue
        for op in ('full', 'normed', 'frob'):
            try:
                hist.apply_view(km, op, models[i], case['insts'][i][1])
            except hist.Refused:
                pass
    ctx.label('{} matrices'.format(len(kms)))
    ctx.interesting(len(touched) > 1)


# ---------------------------------------------------------------------------------------------
# sets and buckets side by side

@st.composite
def sets_cases(draw):
    which = st.integers(0, 2)
    ops = draw(st.lists(st.tuples(which, st.sampled_from(
        ('append', 'attach', 'attr', 'add', 'take', 'extend', 'read')), st.integers(0, 3)).map(list),
        min_size=2, max_size=9))
    return dict(kind=draw(st.sampled_from(('set', 'bucket', 'strategy'))), ops=ops,
                n=draw(st.integers(2, 5)))


def run_sets(case, ctx):
    from kernelmethods.base import KernelMatrix, KernelSet
    from kernelmethods.numeric_kernels import GaussianKernel, LaplacianKernel
    from kernelmethods.sampling import KernelBucket, make_kernel_bucket

    def new():
        if case['kind'] == 'set':
            return KernelSet()
        if case['kind'] == 'bucket':
            return KernelBucket(poly_degree_values=[2], rbf_sigma_values=None,
                                laplace_gamma_values=None, sigmoid_gamma_values=None,
                                sigmoid_offset_values=None)
        return make_kernel_bucket('linear_only')

    sets = [new() for _ in range(3)]
    held = [list(s) for s in sets]
    ids = [id(m) for h in held for m in h]
    g.require(len(set(ids)) == len(ids), 'separately created sets share kernel matrices')
    sample = [None] * 3
    attr = [{} for _ in range(3)]
    n = case['n']
    X = [np.linspace(0.1 * i + 0.1, 2, n * 2).reshape(n, 2) for i in range(4)]
    changed = set()
    for i, op, v in case['ops']:
        s = sets[i]
        if op == 'append' and sample[i] is None and case['kind'] != 'strategy':
            km = KernelMatrix(GaussianKernel(sigma=v + 1))
            s.append(km)
            held[i].append(km)
            attr[i] = {}
        elif op == 'add' and case['kind'] == 'bucket' and sample[i] is None:
            s.add_parametrized_kernels(LaplacianKernel, 'gamma', [v + 0.5])
            g.require(len(s) == len(held[i]) + 1, 'kernel not added')
            held[i].append(list(s)[-1])
            attr[i] = {}
        elif op == 'attach':
            s.attach_to(X[v])
            sample[i] = v
            attr[i] = {}
        elif op == 'attr' and len(held[i]):
            s.set_attr('tag', v)
            attr[i] = {'tag': v}
        elif op == 'take' and len(held[i]):
            new_set = s.take([0])
            if sample[i] is not None:
                new_set.append(np.eye(n))
            g.require(len(new_set) == (2 if sample[i] is not None else 1), 'take or append failed')
        elif op == 'extend' and i != v % 3 and len(held[i]) and len(held[v % 3]):
            continue
        elif op == 'read' and sample[i] is not None:
            for m in s:
                m.full
        changed.add(i)
        for j, t in enumerate(sets):
            g.require(len(t) == len(held[j]) and all(a is b for a, b in zip(t, held[j])),
                      'members of set {} changed by {} on set {}', j, op, i)
            g.require(t.num_samples == (None if sample[j] is None else n),
                      'num_samples of set {} is {} after {} on set {}', j, t.num_samples, op, i)
            if attr[j]:
                g.require(t.get_attr('tag') == [attr[j]['tag']] * len(held[j]),
                          'attributes of set {} are {} after {} on set {}', j, t.get_attr('tag'), op,
                          i)
    for j, t in enumerate(sets):
        if sample[j] is None:
            continue
        for m in t:
            k = m.kernel
            K = np.array([[k(a, b) for b in X[sample[j]]] for a in X[sample[j]]])
            sd = np.sqrt(K.diagonal())
            g.same('matrix in set {}'.format(j), m.full, K / np.outer(sd, sd), 1e-10)
    ctx.label(case['kind'])
    ctx.interesting(len(changed) > 1)


# ---------------------------------------------------------------------------------------------
# estimators side by side

@st.composite
def est_inter_cases(draw):
    kind = draw(st.sampled_from(('km', 'km', 'kmr', 'osvc', 'osvr', 'kmdefault')))
    ops = draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(
        ('fit0', 'fit1', 'pred0', 'pred1', 'pred1')), ).map(list), min_size=2, max_size=6))
    return dict(kind=kind, ops=ops, s=draw(g.seeds), d=draw(st.integers(1, 3)),
                kernel=draw(g.tame()),
                normalized=[draw(st.booleans()), draw(st.booleans())])


def run_est_inter(case, ctx):
    from kernelmethods import algorithms as alg
    r = np.random.RandomState(case['s'])
    data = [(r.rand(8 + i, case['d']) * 3 + 0.2, r.rand(3 + i, case['d']) * 3 + 0.1) for i in range(2)]
    kind = case['kind']
    y = [np.arange(len(X)) % 2 if kind not in ('kmr', 'osvr') else r.rand(len(X)) * 5
         for X, _ in data]
    k = g.make_kernel(case['kernel'])
    if not all(svm.calm(k, X, False) for X, _ in data):
        return
    kb = small_bucket()

    def make(i, k, kb):
        if kind == 'km':
            return alg.KernelMachine(k, normalized=case['normalized'][i])
        if kind == 'kmr':
            return alg.KernelMachineRegressor(k, normalized=case['normalized'][i])
        if kind == 'kmdefault':
            return alg.KernelMachine(normalized=case['normalized'][i])
        return {'osvc': alg.OptimalKernelSVC, 'osvr': alg.OptimalKernelSVR}[kind](
            k_bucket=kb, method='align/corr', C=(1.0, 0.3)[i])

    ests = [make(i, k, kb) for i in range(2)]
    fitted = [None, None]
    used = set()
    for i, op in case['ops']:
        which = int(op[-1])
        if op.startswith('fit'):
            ests[i].fit(data[which][0], y[which])
            fitted[i] = which
        elif fitted[i] is not None:
            twin = make(i, g.make_kernel(case['kernel']), small_bucket())
            twin.fit(data[fitted[i]][0].copy(), y[fitted[i]].copy())
            T = data[which][1]
            a, b = ests[i].predict(T), twin.predict(T.copy())
            g.require(np.allclose(a, b, rtol=1e-6, atol=1e-6),
                      'prediction of estimator {} is {} instead of {}', i, a, b)
            used.add(i)
    ctx.label(kind)
    ctx.interesting(len(used) > 1)


SUBS = [
    Sub('matrix_inputs', matrix_cases, run_matrix, n=3000, rule='more than one value in the sample'),
    Sub('function_inputs', func_cases, run_func, n=2500, rule='matrices larger than 1 x 1'),
    Sub('collections', coll_cases, run_coll, n=1500, rule='several members, or a set that grew'),
    Sub('estimator_inputs', est_cases, run_est, n=600, rule='every case'),
    Sub('interleaved', inter_cases, run_inter, n=2500, rule='at least two matrices were accessed'),
    Sub('sets', sets_cases, run_sets, n=1000, rule='at least two sets were operated on'),
    Sub('estimators', est_inter_cases, run_est_inter, n=500,
        rule='both estimators were fitted and used'),
]
