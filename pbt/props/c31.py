"""Metamorphic: the same data presented in another way - samples, features, members or categories
reordered, repeated, left out, relabelled, padded or rescaled - must give correspondingly changed
results. Both sides are computed by the code under test; tolerances come from forward error bounds."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist
from pbt.props import c18, c23

LD = np.longdouble


def attach(spec, normalized, X, Y=None):
    from kernelmethods.base import KernelMatrix
    km = KernelMatrix(g.make_kernel(spec), normalized=normalized)
    if Y is None:
        km.attach_to(X)
    else:
        km.attach_to(X, sample_two=Y, name_two='Y')
    return km


@st.composite
def reindexings(draw, n, kinds=('perm', 'perm', 'reverse', 'subset', 'repeat', 'roll')):
    kind = draw(st.sampled_from(kinds))
    if kind == 'perm':
        return kind, draw(st.permutations(range(n))) if n < 12 else \
            np.random.RandomState(draw(g.seeds)).permutation(n).tolist()
    if kind == 'reverse':
        return kind, list(range(n))[::-1]
    if kind == 'roll':
        k = draw(st.integers(0, n - 1))
        return kind, list(range(k, n)) + list(range(k))
    if kind == 'subset':
        s = np.random.RandomState(draw(g.seeds))
        return kind, sorted(s.choice(n, draw(st.integers(1, n)), replace=False).tolist())
    at = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=min(n + 3, 12)))
    return kind, at


def finite(T):
    return np.isfinite(T).all()


# ---------------------------------------------------------------------------------------------
# samples

@st.composite
def sample_cases(draw):
    k = draw(g.kernels())
    kw = g.needs(k)
    d = draw(g.sizes(1, 5))
    x = draw(g.samples(d=d, max_n=9, big_n=45, **kw))
    y = draw(g.samples(d=d, max_n=9, big_n=45, **kw)) if draw(st.booleans()) else None
    return dict(kernel=k, x=x, y=y, p=draw(reindexings(x['n'])),
                q=draw(reindexings(y['n'])) if y else None, normalized=draw(st.booleans()),
                order=draw(st.permutations(('full', 'centered', 'frob', 'normed', 'diag', 'row'))))


def run_samples(case, ctx):
    spec, norm = case['kernel'], case['normalized']
    X = g.build(case['x'])
    kind, p = case['p'][0], list(case['p'][1])
    if case['y'] is None:
        model = hist.spec_model(spec, X)
        K, T = model.K
        if not finite(T):
            ctx.label('out of range')
            return
        a, b = attach(spec, norm, X), attach(spec, norm, X[p])
        whole = sorted(p) == list(range(len(X)))
        ix = np.ix_(p, p)
        verdict, N, TN = model.norm
        for op in case['order']:
            if op in ('full', 'normed') and (norm or op == 'normed'):
                if verdict == 'ok':
                    g.same(op, b.full if op == 'full' else b.normed_km,
                           np.asarray(a.full if op == 'full' else a.normed_km)[ix], 2 * TN[ix])
            elif op == 'full':
                g.same(op, b.full, np.asarray(a.full)[ix], 2 * T[ix])
            elif op == 'diag':
                g.same(op, b.diagonal(), np.asarray(a.diagonal())[p], 2 * T.diagonal()[p])
            elif op == 'row':
                g.same(op, b[0, :], np.asarray(a[:, :])[p[0]][p][None], 2 * T[ix][:1])
            elif op == 'frob' and whole:
                F = np.sqrt((K ** 2).sum())
                g.same(op, np.array([b.frob_norm]), np.array([a.frob_norm]),
                       2 * np.sqrt((T ** 2).sum()) + LD(1e-14) * (K.size + 16) * F + LD(1e-140))
            elif op == 'centered' and whole:
                g.same(op, b.centered, np.asarray(a.centered)[ix],
                       2 * hist.center_ref(K, T)[1][ix])
        # twice the same sample
        two = attach(spec, norm, X[p], X)
        if not norm:
            g.same('K(X[p], X)', two.full, np.asarray(a.full)[p], 2 * T[p])
        elif verdict == 'ok':
            g.same('K(X[p], X)', two.full, np.asarray(a.full)[p], 2 * TN[p])
        ctx.label('one sample', kind)
        ctx.interesting(len(X) > 1 and len(p) > 1 and p != list(range(len(X))))
        return
    Y = g.build(case['y'])
    q = list(case['q'][1])
    model = hist.spec_model(spec, X, Y)
    T = model.K[1] if not norm else model.norm[2] if model.verdict == 'ok' else None
    if T is None or not finite(T):
        ctx.label('out of range')
        return
    full = np.asarray(attach(spec, norm, X, Y).full)
    g.same('K(X[p], Y[q])', attach(spec, norm, X[p], Y[q]).full, full[np.ix_(p, q)],
           2 * T[np.ix_(p, q)])
    g.same('K(Y, X)', attach(spec, norm, Y, X).full, full.T, 2 * T.T)
    ctx.label('two samples', kind)
    ctx.interesting(full.size > 1)


# ---------------------------------------------------------------------------------------------
# features

FEATURES = {
    'permute': ('linear', 'poly', 'gaussian', 'laplacian', 'chi2', 'sigmoid', 'hadamard'),
    'zeros': ('linear', 'poly', 'gaussian', 'laplacian', 'chi2', 'sigmoid', 'hadamard'),
    'constant': ('gaussian', 'laplacian', 'chi2'),
    'shift': ('gaussian', 'laplacian'),
    'negate': ('linear', 'poly', 'gaussian', 'laplacian', 'sigmoid', 'hadamard'),
    'scale': ('linear', 'poly', 'gaussian', 'laplacian', 'chi2', 'sigmoid', 'hadamard'),
    'twice': ('linear', 'gaussian', 'laplacian', 'chi2', 'hadamard', 'poly', 'sigmoid'),
}
PARAM = {'poly': 'gamma', 'laplacian': 'gamma', 'chi2': 'gamma', 'sigmoid': 'gamma',
         'gaussian': 'sigma'}


@st.composite
def feature_cases(draw):
    how = draw(st.sampled_from(sorted(FEATURES)))
    k = draw(g.kernels(FEATURES[how], skip=False))
    kw = dict(nonneg=k['k'] == 'chi2', nonzero=k['k'] == 'hadamard')
    x = draw(g.samples(max_n=6, big_n=20, f32=False, ints=False, **kw))
    return dict(how=how, kernel=k, x=x, s=draw(g.seeds), pad=draw(st.integers(1, 4)),
                c=draw(st.sampled_from((0.5, 2.0, 4.0))))


def run_features(case, ctx):
    how, spec, c = case['how'], case['kernel'], case['c']
    X = g.build(case['x'])
    n, d = X.shape
    r = np.random.RandomState(case['s'])
    k = spec['k']
    params = dict(g.DEFAULTS[k])
    params.update({q: v for q, v in spec.items() if q != 'k'})
    if how == 'zeros' and k == 'hadamard' and params['alpha'] < 0:
        return
    other, back = dict(spec), lambda K: K
    if how == 'permute':
        Z = X[:, r.permutation(d)]
    elif how in ('zeros', 'constant'):
        at = r.randint(0, d + 1, case['pad'])
        Z = np.insert(X, at, 0.0 if how == 'zeros' else c, axis=1)
    elif how == 'shift':
        X = np.round(X * 64) / 64  # exactly representable
        Z = X + r.randint(-8, 9, d)
    elif how == 'negate':
        Z = -X
    elif how == 'scale':
        Z = X * c
        if k == 'linear':
            back = lambda K: K / (LD(c) * LD(c))
        elif k == 'hadamard':
            back = lambda K: K / LD(c) ** LD(params['alpha'])
        elif k == 'gaussian':
            other['sigma'] = params['sigma'] * c
        elif k in ('laplacian', 'chi2'):
            other['gamma'] = params['gamma'] / c
        else:
            other['gamma'] = params['gamma'] / (c * c)
    else:
        Z = np.hstack([X, X])
        if k in ('linear', 'hadamard'):
            back = lambda K: K / 2
        elif k == 'gaussian':
            other['sigma'] = params['sigma'] * np.sqrt(2.0)
        else:
            other['gamma'] = params['gamma'] / 2
    A, B = hist.spec_model(spec, X), hist.spec_model(other, Z)
    TA, TB = A.K[1], back(B.K[1])
    if not (finite(TA) and finite(TB)):
        ctx.label('out of range')
        return
    mag = np.abs(A.K[0])
    got = back(np.asarray(attach(other, False, Z).full).astype(LD))
    g.same('{} {}'.format(k, how), got.astype('f8'), np.asarray(attach(spec, False, X).full),
           2 * (TA + TB) + LD(1e-13) * mag + LD(1e-300))
    ctx.label(how, k)
    ctx.interesting(n > 1 and (how != 'permute' or d > 1))


# ---------------------------------------------------------------------------------------------
# sets: samples, targets and members reordered together

@st.composite
def set_cases(draw):
    n = draw(g.sizes(3, 9, 25))
    size = draw(g.sizes(2, 5))
    return dict(n=n, d=draw(st.integers(1, 3)), s=draw(g.seeds),
                kernels=[[draw(g.tame()), draw(st.booleans())] for _ in range(size)],
                p=draw(reindexings(n, ('perm', 'perm', 'reverse', 'roll')))[1],
                m=draw(st.permutations(range(size))),
                w=draw(st.lists(g.eighths, min_size=size, max_size=size)),
                y=draw(st.lists(st.integers(-3, 3), min_size=n, max_size=n)))


def run_sets(case, ctx):
    from kernelmethods import base, operations, ranking, sampling
    n, p, m = case['n'], list(case['p']), list(case['m'])
    X = np.random.RandomState(case['s']).rand(n, case['d']) * 2 + 0.2
    y = np.array(case['y'], dtype='f8')
    w = np.array(case['w'])

    def make(order, rows):
        return base.KernelSet([attach(case['kernels'][i][0], case['kernels'][i][1], X[rows])
                               for i in order])

    first, second = make(range(len(m)), np.arange(n)), make(m, p)
    Ks = [np.array(k.full) for k in first]
    big = max(float(np.abs(K).max()) for K in Ks)
    if not np.isfinite(big) or big > 1e8:
        return
    ix = np.ix_(p, p)
    for cls, kw in ((base.SumKernel, 0), (base.SumKernel, 1), (base.ProductKernel, 0),
                    (base.AverageKernel, 0), (base.WeightedAverageKernel, 2)):
        out = []
        for ks, ww in ((first, w), (second, w[m])):
            c = cls(ks, ww) if kw == 2 else cls(ks)
            c.fit(ww) if kw == 1 else c.fit()
            out.append(np.array(c.full))
        scale = np.prod([np.abs(K) for K in Ks], axis=0) if cls is base.ProductKernel else \
            sum(np.abs(K) * (1 + abs(v)) for K, v in zip(Ks, w))
        g.same(cls.__name__, out[1], out[0][ix], 1e-10 * scale[ix] + 1e-300)
    a = operations.linear_combination(first, w)
    b = operations.linear_combination(second, w[m])
    g.same('linear combination', b, a[ix],
           1e-10 * sum(np.abs(K) * (1 + abs(v)) for K, v in zip(Ks, w))[ix])
    # degenerate matrices, whose scores are decided by rounding
    cent = [hist.center_ref(K.astype(LD), np.zeros(K.shape, LD))[0] for K in Ks]
    clear = np.array([np.sqrt((C ** 2).sum()) > 1e-5 * np.abs(K).max() and
                      np.sqrt((C ** 2).sum()) > 1e-5 for C, K in zip(cent, Ks)])
    if np.ptp(y) > 0:
        ra = np.asarray(ranking.rank_kernels(first, y, method='align/corr'))
        rb = np.asarray(ranking.rank_kernels(second, y[p], method='align/corr'))
        g.same('alignment scores', rb[clear[m]], ra[m][clear[m]], 1e-7)
        ctx.label('ranked')
    for metric in ('corr', 'align'):
        ok = clear if metric == 'align' else np.array([np.ptp(K) > 1e-5 * np.abs(K).max()
                                                       for K in Ks])
        sa = sampling.pairwise_similarity(first, metric=metric)
        sb = sampling.pairwise_similarity(second, metric=metric)
        both = np.ix_(np.flatnonzero(ok[m]), np.flatnonzero(ok[m]))
        g.same(metric, np.asarray(sb)[both], np.asarray(sa)[np.ix_(m, m)][both], 1e-7)
    for i, j in enumerate(m):
        low = np.linalg.eigvalsh(Ks[j]).min()
        if abs(low + 1e-6) > 1e-9 * max(1, big):
            g.require(operations.is_PSD(np.array(second[i].full)) ==
                      operations.is_PSD(np.array(first[j].full)), 'verdict on PSDness depends on '
                      'the order of samples')
    ctx.interesting(p != list(range(n)) or m != list(range(len(m))))


# ---------------------------------------------------------------------------------------------
# categories

@st.composite
def categorical_cases(draw):
    d, n = draw(g.sizes(1, 6)), draw(g.sizes(1, 7, 25))
    alpha = draw(st.sampled_from(sorted(c23.ALPHABETS)))
    letters = c23.ALPHABETS[alpha]
    new = draw(st.sampled_from(sorted(c23.ALPHABETS)))
    return dict(x=[[draw(st.sampled_from(letters)) for _ in range(d)] for _ in range(n)],
                alpha=alpha, new=new, shuffle=draw(g.seeds), p=draw(reindexings(n))[1],
                perc=draw(st.sampled_from((True, False, None))), normalized=draw(st.booleans()),
                each=draw(st.booleans()), q=draw(st.permutations(range(d))))


def run_categorical(case, ctx):
    from kernelmethods.base import KernelMatrix
    X = np.array(case['x'])
    n, d = X.shape
    r = np.random.RandomState(case['shuffle'])

    def renamed():
        """A one-to-one renaming of the categories (made longer where there are not enough)."""
        names = list(c23.ALPHABETS[case['new']])
        names += ['other {}'.format(i) for i in range(8)]
        return dict(zip(c23.ALPHABETS[case['alpha']], [names[i] for i in r.permutation(8)]))

    maps = [renamed() for _ in range(d)] if case['each'] else [renamed()] * d
    p = list(case['p'])
    Z = np.array([[maps[j][str(X[i, j])] for j in case['q']] for i in p])
    out = []
    for S in (X, Z):
        km = KernelMatrix(c23.match_kernel(case['perc']), normalized=case['normalized'])
        km.attach_to(S)
        out.append(np.array(km.full))
    g.same('renamed categories', out[1], out[0][np.ix_(p, p)], 1e-12 * max(1, d))
    ctx.label('renamed per dimension' if case['each'] else 'renamed')
    ctx.interesting(len(p) > 1)


# ---------------------------------------------------------------------------------------------
# estimators

@st.composite
def machine_cases(draw):
    n = draw(g.about(8, 16, 40))
    return dict(kernel=draw(g.tame(c18.PSD)), n=n, d=draw(st.integers(1, 3)), s=draw(g.seeds),
                xkind=draw(st.sampled_from(('unif', 'blobs', 'grid', 'int'))),
                reg=draw(st.booleans()), normalized=draw(st.booleans()),
                y=draw(st.sampled_from(('two', 'three', 'far', 'four'))),
                q=draw(reindexings(9)), move=draw(st.sampled_from((1, 7, -200, 0.5))),
                order=draw(g.seeds))


def run_machine(case, ctx):
    from kernelmethods.algorithms import KernelMachine, KernelMachineRegressor
    n, spec, norm = case['n'], case['kernel'], case['normalized']
    X = c18.points(case['xkind'], n, case['d'], case['s'])
    Z = c18.points(case['xkind'], 9, case['d'], case['s'] + 1)
    from pbt import svm
    if not svm.calm(g.make_kernel(spec), X, norm):
        ctx.label('slow')
        return
    q = list(case['q'][1])
    turn = np.random.RandomState(case['order']).permutation(n)
    K, C = c18.train_matrices(spec, X, Z, norm)
    if case['reg']:
        y = np.round(np.sin(3 * X[:, 0]) + X[:, -1], 3)
        make = lambda: KernelMachineRegressor(g.make_kernel(spec), normalized=norm)  # noqa
        est = make().fit(X, y)
        out = np.asarray(est.predict(Z))
        ref, tol = c18.reg_values(K, y, C, None)
        g.same('predictions for the same rows', est.predict(Z[q]), out[q],
               1e-9 * (1 + np.abs(out[q]) + np.abs(y).max()))
        g.same('trained on reordered samples', make().fit(X[turn], y[turn]).predict(Z), out,
               2 * tol)
        g.same('targets moved', make().fit(X, y + case['move']).predict(Z),
               out + case['move'], 2 * tol + 5e-3 * abs(case['move']))
    else:
        y = c18.labels(case['y'], n, case['s'], 0.2)
        make = lambda: KernelMachine(g.make_kernel(spec), normalized=norm)  # noqa
        est = make().fit(X, y)
        out = np.asarray(est.predict(Z))
        clear = c18.clear_labels(K, y, C, None)[1]
        g.require(np.array_equal(np.asarray(est.predict(Z[q]))[clear[q]], out[q][clear[q]]),
                  'labels of the same rows depend on the other rows')
        again = np.asarray(make().fit(X[turn], y[turn]).predict(Z))
        g.require(np.array_equal(again[clear], out[clear]),
                  'labels depend on the order of the training samples: {} / {}', again, out)
        move = int(case['move'] * 2)
        moved = np.asarray(make().fit(X, y * 2 + move).predict(Z))
        g.require(np.array_equal(moved[clear], out[clear] * 2 + move),
                  'renaming the classes changes predictions: {} / {}', moved, out)
    ctx.label('regression' if case['reg'] else case['y'], case['q'][0])
    ctx.interesting(len(np.unique(out)) > 1)


SUBS = [
    Sub('samples', sample_cases, run_samples, n=5000,
        rule='more than one sample, which are not in the same order'),
    Sub('features', feature_cases, run_features, n=3000, rule='a changed matrix larger than 1x1'),
    Sub('sets', set_cases, run_sets, n=1000, rule='samples or members in another order'),
    Sub('categories', categorical_cases, run_categorical, n=2000, rule='more than one sample'),
    Sub('machines', machine_cases, run_machine, n=500, rule='different predictions'),
]
