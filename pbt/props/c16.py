"""Oracle: centered alignment with the outer product of the targets in extended precision; manual
cross-validation with plain scikit-learn SVMs on copies of the matrices; the selected kernel must be a
member of the bucket with the maximal reference score."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, Violation
from pbt import gens as g
from pbt import mats, svm

LD = np.longdouble


def rows(kind, n, d, s):
    r = np.random.RandomState(s)
    X = r.randn(n, d)
    if kind == 'blobs':
        X = X * 0.6 + 2 * (np.arange(n) % 2)[:, None]
    elif kind == 'line':
        X = np.linspace(-2, 2, n)[:, None] * np.ones(d) + 0.2 * X
    X[np.abs(X) < 0.1] = 0.1
    return X


def make_targets(spec, n):
    """Targets with every class in every position of a cycle, so that folds are never degenerate."""
    r = np.random.RandomState(spec['s'])
    kind = spec['kind']
    if kind == 'real':
        y = np.round(np.linspace(-2, 3, n) + r.randn(n) * spec['noise'], 3)
    else:
        k = {'binary': 2, 'pm1': 2, 'three': 3, 'str': 2}[kind]
        y = np.arange(n) % k
        flip = r.rand(n) < spec['noise'] * 0.3
        y = np.where(flip, r.permutation(y), y)
        for c in range(k):  # at least six members of each class
            while (y == c).sum() < 6:
                big = np.argmax(np.bincount(y, minlength=k))
                y[np.flatnonzero(y == big)[0]] = c
        if kind == 'pm1':
            y = 2 * y - 1
        elif kind == 'str':
            return np.array(['neg', 'pos'])[y]
    if kind != 'real' and spec['t'] != 'f8':
        y = y.astype(spec['t'])
    else:
        y = y.astype('f8')
    return y.tolist() if spec['list'] else y


@st.composite
def target_specs(draw, kinds):
    return dict(kind=draw(st.sampled_from(kinds)), s=draw(g.seeds),
                noise=draw(st.sampled_from((0.0, 0.3, 1.0))),
                t=draw(st.sampled_from(('f8', 'i8', 'i1', 'i4'))), list=draw(st.booleans()))


# ---------------------------------------------------------------------------------------------
# scores of arbitrary sets

@st.composite
def align_cases(draw):
    n = draw(g.sizes(2, 10, 30))
    ms = []
    for _ in range(draw(g.sizes(1, 5, 12))):
        kind = draw(st.sampled_from(('pre', 'pre', 'const', 'km', 'ideal', 'nan', 'inf', 'anti')))
        ms.append([kind, draw(g.seeds), draw(g.tame()), draw(st.booleans())])
    t = draw(st.sampled_from(('f8', 'f4', 'i8', 'i2', 'i1', 'u1')))
    if t[0] == 'f':
        y = draw(st.lists(g.eighths, min_size=n, max_size=n))
    else:
        lo = 0 if t == 'u1' else -1
        y = draw(st.lists(st.sampled_from((lo, 1, 1, 7, 100)), min_size=n, max_size=n))
    return dict(n=n, members=ms, t=t, y=y, list=draw(st.booleans()), d=draw(st.integers(1, 3)),
                s=draw(g.seeds), how=draw(st.sampled_from(('rank', 'Rank', 'direct'))),
                zero=draw(st.sampled_from((None, None, 0.0, -1.0, 0.5, 'raise'))),
                centered=draw(st.sampled_from((None, None, None, False, True))),
                est=draw(st.sampled_from((None, None, 'SVC'))))


def run_align(case, ctx):
    from kernelmethods.base import KernelMatrix, KernelSet
    from kernelmethods.ranking import alignment_ranking, rank_kernels
    n = case['n']
    X = rows('normal', n, case['d'], case['s'])
    yv = np.array(case['y'], dtype=case['t'])
    y = yv.tolist() if case['list'] else yv
    members = []
    for kind, s, spec, nz in case['members']:
        r = np.random.RandomState(s)
        if kind == 'km':
            km = KernelMatrix(g.make_kernel(spec), normalized=nz)
            km.attach_to(X)
            members.append(km)
        elif kind == 'const':
            members.append(np.full((n, n), float(s % 4)))
        elif kind == 'ideal':
            members.append(np.outer(yv.astype('f8'), yv.astype('f8')) * (1 + s % 3) + s % 2)
        elif kind == 'anti':
            members.append(-np.outer(yv.astype('f8'), yv.astype('f8')))
        else:
            a = r.randn(n, n)
            a = a + a.T
            if kind in ('nan', 'inf'):
                # asymmetric NaNs would not be accepted
                km = _const_kernel(np.nan if kind == 'nan' else np.inf, s % n)
                km.attach_to(np.arange(n, dtype='f8').reshape(-1, 1))
                members.append(km)
            else:
                members.append(a)
    ks = KernelSet(members)
    kw = {}
    if case['zero'] is not None:
        kw['value_if_zero_division'] = case['zero']
    if case['centered'] is not None:
        kw['centered_already'] = case['centered']
    if case['est'] is not None:
        kw['estimator_name'] = case['est']
    align = svm.target_alignment
    if case['centered']:
        def align(K, y):
            return svm.target_alignment(K, y, center=False)
    refs = []
    for m in ks:
        K = np.array(m.full)
        refs.append('undefined' if not np.isfinite(K).all() else align(K, yv))
    try:
        out = {'rank': lambda: rank_kernels(ks, y, method='align/corr', **kw),
               'Rank': lambda: rank_kernels(ks, y, method='Align/CORR', **kw),
               'direct': lambda: alignment_ranking(ks, y, **kw)}[case['how']]()
    except ValueError as e:
        if case['zero'] == 'raise' and (None in refs or 'zero' in refs or
                                        align(np.eye(n), yv) in ('zero', None)):
            ctx.label('refused as requested')
            ctx.interesting()
            return
        raise Violation('ranking raises {!r}'.format(e))
    if case['zero'] == 'raise' and 'zero' in refs:
        raise Violation('no exception, although requested for matrices of zero norm: {}'.format(out))
    zero = case['zero'] or 0.0
    out = np.asarray(out, dtype='f8')
    g.require(out.shape == (len(members),), 'shape {} for {} kernels', out.shape, len(members))
    seen = set()
    degenerate = align(np.eye(n), yv) in ('zero', None)
    for i, ref in enumerate(refs):
        if ref == 'undefined':
            # with a degenerate target kernel, all alignments are undefined for that reason
            g.require(not np.isfinite(out[i]) or (degenerate and out[i] == zero),
                      'score {} for a matrix with non-finite values', out[i])
            seen.add('non-finite')
            continue
        if ref is None:
            continue
        seen.add('zero' if ref == 'zero' else 'value')
        ref = zero if ref == 'zero' else ref
        g.require(abs(out[i] - ref) < 1e-7, 'score of kernel {} is {!r} instead of {!r}', i, out[i],
                  ref)
    ctx.label(case['t'], *seen)
    ctx.interesting('value' in seen and len(members) > 1)


def _const_kernel(bad, where):
    """Kernel matrix that is not finite for one pair of samples (rows carry their index)."""
    from kernelmethods.base import KernelFromCallable, KernelMatrix

    def f(x, y):
        if x[0] == y[0] == where:
            return bad
        return 1.0 if x[0] == y[0] else 0.25
    return KernelMatrix(KernelFromCallable(f, name='bad'), normalized=False)


# ---------------------------------------------------------------------------------------------
# cross-validation scores

@st.composite
def cv_cases(draw):
    reg = draw(st.booleans())
    n = draw(g.about(18, 26, 70))
    ms = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(('km', 'km', 'noise', 'ideal', 'nan', 'inf', 'eye')))
        # large values only where the solver converges quickly
        e = draw(st.sampled_from((0, 0, -2, -4, -5) + ((3, 4) if kind in ('ideal', 'eye') else ())))
        ms.append([kind, draw(g.seeds), draw(g.tame()), e])
    return dict(reg=reg, n=n, d=draw(st.integers(1, 3)), s=draw(g.seeds), members=ms,
                xkind=draw(st.sampled_from(('normal', 'blobs', 'line'))),
                y=draw(target_specs(('real',) if reg else ('binary', 'pm1', 'three', 'str'))),
                folds=draw(st.sampled_from((None, 2, 3, 4, 5))), name=draw(st.sampled_from(
                    ('SVR', 'svr') if reg else ('SVC', 'SVM', 'svm', None))))


def run_cv(case, ctx):
    from kernelmethods.base import KernelMatrix, KernelSet
    from kernelmethods.ranking import CV_ranking, rank_kernels
    n, reg = case['n'], case['reg']
    X = rows(case['xkind'], n, case['d'], case['s'])
    y = make_targets(case['y'], n)
    ya = np.asarray(y)
    yn = np.unique(ya, return_inverse=True)[1] if ya.dtype.kind == 'U' else ya
    members = []
    for kind, s, spec, e in case['members']:
        r = np.random.RandomState(s)
        if kind == 'km':
            km = KernelMatrix(g.make_kernel(spec), normalized=True)
            km.attach_to(X)
            members.append(km if e == 0 else np.array(km.full) * 10.0 ** e)
        elif kind in ('nan', 'inf'):
            km = _const_kernel(np.nan if kind == 'nan' else -np.inf, s % n)
            km.attach_to(np.arange(n, dtype='f8').reshape(-1, 1))
            members.append(km)
        elif kind == 'ideal':
            c = (yn - yn.mean()) / (np.abs(yn).max() + 1)
            members.append((np.outer(c, c) + 0.1 * np.eye(n)) * 10.0 ** e)
        elif kind == 'eye':
            members.append(np.eye(n) * 10.0 ** e)
        else:
            Z = r.randn(n, 3)
            K = Z @ Z.T
            K = K / np.sqrt(np.outer(K.diagonal(), K.diagonal()))
            members.append((K + K.T) * 0.5 * 10.0 ** e)
    ks = KernelSet(members)
    kw = {}
    if case['folds']:
        kw['num_folds'] = case['folds']
    if case['name']:
        kw['estimator_name'] = case['name']
    out = rank_kernels(ks, y, method='cv_risk', **kw) if case['s'] % 2 else CV_ranking(ks, y, **kw)
    out = np.asarray(out, dtype='f8')
    raw = []
    for m in ks:
        K = np.array(m.full)
        low, high = svm.cv_range(K, ya, reg, case['folds'] or 3) if np.isfinite(K).all() else \
            (np.nan, np.nan)
        if high - low > 1e-12:
            ctx.label('ambiguous predictions')
            return
        raw.append(low)
    g.require(out.shape == (len(raw),), 'shape {} for {} kernels', out.shape, len(raw))
    if np.isnan(raw).all():
        return
    spread = np.nanmax(raw) - np.nanmin(raw)
    if 1e-12 <= spread < 1e-6:
        return  # too close to decide whether they are equal
    ref = svm.scaled(raw)
    for i, (a, b) in enumerate(zip(out, ref)):
        if np.isnan(b):
            g.require(not np.isfinite(a), 'score {} of kernel {} with non-finite values', a, i)
        else:
            g.require(abs(a - b) < 1e-6, 'score of kernel {} is {!r} instead of {!r} ({})', i, a, b,
                      out)
    ctx.label('regression' if reg else 'classification', 'folds {}'.format(case['folds']))
    if np.isnan(raw).any():
        ctx.label('non-finite')
    ctx.interesting(spread > 0 and len(raw) > 1)


# ---------------------------------------------------------------------------------------------
# selection

@st.composite
def find_cases(draw, cv=False):
    reg = draw(st.booleans())
    pos = st.lists(g._fparam(0.25, 8), min_size=1, max_size=2)
    opt = lambda s: draw(st.one_of(st.none(), s))  # noqa
    return dict(cv=cv, reg=reg, n=draw(g.about(18, 24, 70 if cv else 140)), d=draw(st.integers(1, 3)),
                s=draw(g.seeds), xkind=draw(st.sampled_from(('normal', 'blobs', 'line'))),
                degrees=opt(st.lists(st.integers(1, 3), min_size=1, max_size=2)),
                sigmas=opt(pos), gammas=opt(pos),
                bad=draw(st.lists(st.sampled_from(('nan', 'inf')), max_size=2)),
                badpos=draw(st.integers(0, 3)),
                y=draw(target_specs(('real',) if reg else ('binary', 'pm1', 'three'))),
                folds=draw(st.sampled_from((None, None, 2, 4, 5))), zero=draw(st.sampled_from(
                    (None, None, -2.0, 0.25, 2.0))), const=draw(st.booleans()),
                before=draw(st.booleans()), normalized=draw(st.booleans()) or cv,
                method=draw(st.sampled_from(('lower', 'upper'))))


def make_bucket(case):
    from kernelmethods.base import KernelFromCallable, KernelMatrix
    from kernelmethods.sampling import KernelBucket
    from kernelmethods.numeric_kernels import GaussianKernel, LaplacianKernel, PolyKernel
    kb = KernelBucket(poly_degree_values=None, rbf_sigma_values=None, laplace_gamma_values=None,
                      sigmoid_gamma_values=None, sigmoid_offset_values=None,
                      normalize_kernels=case['normalized'])
    parts = [lambda: kb.add_parametrized_kernels(PolyKernel, 'degree', case['degrees']),
             lambda: kb.add_parametrized_kernels(GaussianKernel, 'sigma', case['sigmas']),
             lambda: kb.add_parametrized_kernels(LaplacianKernel, 'gamma', case['gammas'])]
    for bad in case['bad']:
        val = np.nan if bad == 'nan' else np.inf
        km = KernelMatrix(KernelFromCallable(
            lambda x, y, v=val: v if np.array_equal(x, y) else float(np.dot(x, y)), name='bad'),
            normalized=False)
        parts.insert(case['badpos'], lambda km=km: kb.append(km))
    if case.get('const'):
        # degenerate after centering
        km = KernelMatrix(KernelFromCallable(lambda x, y: 1.0, name='const'), normalized=False)
        parts.insert(case['badpos'], lambda km=km: kb.append(km))
    for part in parts:
        part()
    return kb


def run_find(case, ctx):
    from kernelmethods.ranking import find_optimal_kernel
    X = rows(case['xkind'], case['n'], case['d'], case['s'])
    y = make_targets(case['y'], case['n'])
    kb = make_bucket(case)
    held = list(kb)
    if case['before']:
        kb.attach_to(np.random.RandomState(1).rand(case['n'], case['d']))
        for m in list(kb)[:2]:
            m.full
    kw = dict(method='cv_risk' if case['cv'] else 'align/corr')
    if case['cv']:
        kw['estimator_name'] = 'SVR' if case['reg'] else 'SVC'
        if case['folds']:
            kw['num_folds'] = case['folds']
    elif case['zero'] is not None:
        kw['value_if_zero_division'] = case['zero']
    if case['method'] == 'upper':
        kw['method'] = kw['method'].upper()
    out = find_optimal_kernel(kb, X, y, **kw)
    at = [i for i, m in enumerate(held) if m is out]
    g.require(len(at) == 1, 'the selected matrix is not one of the bucket')
    scores, got = [], None
    for m in held:
        K = svm.gram(m.kernel, X, X)
        if case['normalized'] and m.kernel.name not in ('bad', 'const'):
            d = K.diagonal()
            K = svm.normed(K, d, d)
        g.require(m.num_samples == case['n'], 'num_samples {}', m.num_samples)
        if not np.isfinite(K).all():
            scores.append(np.nan)
            continue
        g.same('matrix of the bucket on the sample', np.array(m.full), K,
               1e-9 * (1 + np.abs(K)))
        if case['cv']:
            low, high = svm.cv_range(m.full, y, case['reg'], case['folds'] or 3)
            scores.append(low)
            if at[0] == len(scores) - 1:
                got = high
        else:
            v = svm.target_alignment(K, y)
            if v is None:
                return
            scores.append((case['zero'] or 0.0) if v == 'zero' else v)
    best = np.nanmax(scores)
    got = scores[at[0]] if got is None else got
    if not got >= best - 1e-7:
        raise Violation('selected kernel {} with score {}, but the scores are {}'.format(
            at[0], got, scores))
    ctx.label('cv' if case['cv'] else 'align', 'position {}'.format(at[0]))
    if case['bad']:
        ctx.label('with undefined scores')
    ctx.interesting(best - np.nanmin(scores) > 1e-6)


@st.composite
def again_cases(draw):
    step = st.tuples(st.sampled_from(('targets', 'targets', 'inplace', 'attach', 'append', 'same',
                                      'find', 'find', 'moved')), g.seeds).map(list)
    return dict(n=draw(g.sizes(6, 14, 30)), s=draw(g.seeds), d=draw(st.integers(1, 3)),
                kernels=draw(st.lists(g.tame(), min_size=2, max_size=4)),
                list=draw(st.booleans()), steps=draw(st.lists(step, min_size=1, max_size=4)))


def run_again(case, ctx):
    """Scores follow the targets and the samples of each call, whatever was ranked before."""
    from kernelmethods.base import KernelMatrix
    from kernelmethods.ranking import find_optimal_kernel, rank_kernels
    from kernelmethods.sampling import make_kernel_bucket
    n = case['n']
    X = rows('normal', n, case['d'], case['s'])
    ks = make_kernel_bucket('linear_only')
    kms = list(ks)
    for spec in case['kernels']:
        km = KernelMatrix(g.make_kernel(spec), normalized=False)
        kms.append(km)
        ks.append(km)
    ks.attach_to(X)
    y = np.array(np.random.RandomState(case['s']).randint(-2, 3, n), dtype='f8')
    seen = []
    for step, seed in [['start', 0]] + case['steps']:
        r = np.random.RandomState(seed)
        found = None
        if step == 'targets':
            y = r.randint(-2, 3, n).astype('f8')
        elif step == 'inplace':
            y[...] = r.randint(-3, 3, n)
        elif step == 'attach':
            X = rows('normal', n, case['d'], seed)
            ks.attach_to(X, name=('X', 'again')[seed % 2])
        elif step == 'find':
            X = rows('blobs', n, case['d'], seed)
            y = r.randint(-2, 3, n).astype('f8')
            found = find_optimal_kernel(ks, X, y, method='align/corr')
        elif step == 'moved':
            # some members are attached on their own, before the set returns to the same sample
            for km in kms[seed % 2:]:
                km.attach_to(r.rand(n, case['d']))
            if seed % 3:
                found = find_optimal_kernel(ks, X, y, method='align/corr')
            else:
                ks.attach_to(X)
        elif step == 'append':
            km = KernelMatrix(g.make_kernel(case['kernels'][seed % len(case['kernels'])]))
            km.attach_to(X)
            kms.append(km)
            ks.append(km)
        out = np.asarray(rank_kernels(ks, y.tolist() if case['list'] else y, method='align/corr'),
                         dtype='f8')
        g.require(out.shape == (len(kms),), 'shape {} for {} kernels', out.shape, len(kms))
        refs = []
        for i, km in enumerate(kms):
            K = svm.gram(km.kernel, X, X)
            if i == 0 or i > len(case['kernels']):  # normalized
                K = svm.normed(K, K.diagonal(), K.diagonal())
            refs.append(svm.target_alignment(K, y))
            if refs[-1] is None:
                continue
            ref = 0.0 if refs[-1] == 'zero' else refs[-1]
            g.require(abs(out[i] - ref) < 1e-7, 'after {}: score of kernel {} is {!r} instead of '
                      '{!r}', step, i, out[i], ref)
        vals = [0.0 if v == 'zero' else v for v in refs]
        if found is not None and None not in vals:
            at = [i for i, m in enumerate(kms) if m is found]
            g.require(len(at) == 1 and vals[at[0]] >= max(vals) - 1e-7,
                      'selected {} although the scores are {}', at, vals)
        seen.append(tuple(vals))
        ctx.label(step)
    ctx.interesting(len(set(seen)) > 1)


@st.composite
def refused_cases(draw):
    return dict(method=draw(st.sampled_from(('nonsense', '', 'align', 'corr', 'risk', 'cvrisk'))),
                what=draw(st.sampled_from(('method', 'rank', 'set', 'list', 'none', 'str', 'array'))),
                s=draw(g.seeds))


def run_refused(case, ctx):
    from kernelmethods.base import KernelSet
    from kernelmethods.ranking import find_optimal_kernel, get_estimator, rank_kernels
    from kernelmethods.sampling import make_kernel_bucket
    X = rows('normal', 12, 2, case['s'])
    y = np.arange(12) % 2
    kb = make_kernel_bucket('linear_only')
    what = case['what']
    if what == 'method':
        g.raises('method {!r}'.format(case['method']), NotImplementedError, find_optimal_kernel, kb,
                 X, y, method=case['method'])
    elif what == 'rank':
        kb.attach_to(X)
        g.raises('method {!r}'.format(case['method']), NotImplementedError, rank_kernels, kb, y,
                 method=case['method'])
        g.raises('learner', NotImplementedError, get_estimator, case['method'])
    else:
        bad = {'set': KernelSet(list(kb)), 'list': list(kb), 'none': None, 'str': 'light',
               'array': np.eye(12)}[what]
        g.raises('bucket {}'.format(what), TypeError, find_optimal_kernel, bad, X, y,
                 method='align/corr')
    ctx.label(what)
    ctx.interesting()


SUBS = [
    Sub('alignment', align_cases, run_align, n=2000, rule='several kernels, some with a defined '
        'alignment'),
    Sub('cross_validation', cv_cases, run_cv, n=160, rule='kernels with different performance',
        shards=24),
    Sub('selection', find_cases, run_find, n=800, rule='kernels with different scores'),
    Sub('selection_cv', lambda: find_cases(cv=True), run_find, n=80, shards=16,
        rule='kernels with different scores'),
    Sub('again', again_cases, run_again, n=600,
        rule='different scores in the course of one history of rankings'),
    Sub('refused', refused_cases, run_refused, n=100, rule='every case'),
]
