"""Oracle: definitions in extended precision for ideal kernel, Pearson correlation and centered
alignment of generated matrices and sets; metamorphic: symmetry, self-similarity, affine changes."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist, mats
from pbt.svm import alignment

LD = np.longdouble


@st.composite
def targets(draw):
    n = draw(g.sizes(1, 10, 80))
    t = draw(st.sampled_from(('f8', 'f4', 'i8', 'i4', 'i2', 'i1', 'u1')))
    vals = draw(st.lists(g.number() if t[0] == 'f' else st.integers(0 if t == 'u1' else -120, 120),
                         min_size=n, max_size=n))
    return dict(t=t, v=vals, form=draw(st.sampled_from(('arr', 'list', 'col', 'row', 'strided',
                                                        'tuple'))))


def run_ideal(case, ctx):
    from kernelmethods.sampling import ideal_kernel
    y = np.array(case['v'], dtype=case['t'])
    n = len(y)
    obj = {'arr': lambda: y, 'list': y.tolist, 'tuple': lambda: tuple(y.tolist()),
           'col': lambda: y.reshape(-1, 1), 'row': lambda: y.reshape(1, -1),
           'strided': lambda: np.repeat(y, 2)[::2]}[case['form']]()
    R = np.outer(y.astype(LD), y.astype(LD))
    out = ideal_kernel(obj)
    g.same('ideal_kernel', np.asarray(out), R,
           np.abs(R) * (LD(1e-15) if case['t'] != 'f4' else LD(1e-6)))
    ctx.label(case['t'], case['form'])
    ctx.interesting(n > 1 and len(set(case['v'])) > 1)


def pearson(A, B):
    a, b = A.astype(LD).ravel(), B.astype(LD).ravel()
    a, b = a - a.mean(), b - b.mean()
    sa, sb = np.sqrt((a ** 2).sum()), np.sqrt((b ** 2).sum())
    ok = sa > 1e-6 * np.abs(A.astype(LD)).max() * len(A) and \
        sb > 1e-6 * np.abs(B.astype(LD)).max() * len(B) and sa > 0 and sb > 0
    return (float((a * b).sum() / (sa * sb)) if ok else None)


@st.composite
def pairs(draw):
    kinds = ('psd', 'sym', 'any', 'int', 'i1', 'u1', 'i2', 'sparse', 'lit', 'lowrank', 'f4', 'f2')
    a = draw(mats.mats(kinds=kinds, big_n=40))
    b = draw(mats.mats(n=a['n'], kinds=kinds))
    return dict(a=a, b=b, al=draw(g.pos_eighths), c=draw(g.eighths))


def run_corr(case, ctx):
    from kernelmethods.sampling import correlation_km
    A, B = mats.build(case['a']), mats.build(case['b'])
    ref = pearson(A, B)
    if ref is None or A.size < 3:
        return
    tol = 2e-2 if 'f2' in (case['a']['kind'], case['b']['kind']) else \
        1e-3 if 'f4' in (case['a']['kind'], case['b']['kind']) else 1e-8

    def corr(x, y):
        return np.array([correlation_km(x, y)], dtype='f8')

    g.same('correlation', corr(A, B), np.array([ref]), tol)
    g.same('swapped', corr(B, A), np.array([ref]), tol)
    g.same('with itself', corr(A, A.copy()), np.ones(1), tol)
    g.require(abs(corr(A, B)[0]) <= 1 + 1e-9, 'correlation beyond 1')
    F = A.astype('f8') * case['al'] + case['c']
    if pearson(F, B) is not None:
        g.same('affine change', corr(F, B), np.array([ref]), tol)
        g.same('negated', corr(-F, B), np.array([-ref]), tol)
    ctx.label(case['a']['kind'])
    ctx.interesting()


@st.composite
def sets(draw):
    n = draw(g.sizes(2, 7, 20))
    size = draw(g.sizes(1, 6, 12))
    ms = []
    for _ in range(size):
        kind = draw(st.sampled_from(('km', 'km', 'pre', 'const')))
        if kind == 'km':
            ms.append(dict(kernel=draw(g.kernels(('linear', 'poly', 'gaussian', 'laplacian',
                                                  'custom', 'sigmoid'), skip=False)),
                           normalized=draw(st.booleans())))
        else:
            ms.append({kind: draw(g.seeds)})
    metric = draw(st.sampled_from(('corr', 'align', 'align')))
    if metric == 'corr':
        ms = [m for m in ms if 'const' not in m] or [{'pre': 3}]
    x = draw(g.samples(n=n, ints=False, f32=False, layouts=False))
    return dict(n=n, members=ms, x=x, metric=metric)


def run_pairs(case, ctx):
    from kernelmethods.base import KernelMatrix, KernelSet
    from kernelmethods.config import KMNormError
    from kernelmethods.sampling import pairwise_similarity
    X, n = g.build(case['x']), case['n']
    objs = []
    for m in case['members']:
        if 'kernel' in m:
            model = hist.spec_model(m['kernel'], X)
            if m['normalized'] and model.verdict != 'ok' or not model.finite:
                continue
            km = KernelMatrix(g.make_kernel(m['kernel']), normalized=m['normalized'])
            km.attach_to(X)
            objs.append(km)
        else:
            r = np.random.RandomState(m.get('pre', m.get('const')))
            a = np.full((n, n), r.randint(0, 5) / 2) if 'const' in m else r.rand(n, n)
            objs.append(a + a.T)
    if not objs:
        return
    ks = KernelSet(objs)
    full = [np.array(m.full) for m in ks]
    S = pairwise_similarity(ks, metric=case['metric'])
    g.require(isinstance(S, np.ndarray) and S.shape == (len(full),) * 2, 'shape of {!r}', S)
    seen = set()
    for i in range(len(full)):
        for j in range(len(full)):
            ref = (pearson if case['metric'] == 'corr' else alignment)(full[i], full[j])
            if ref is None:
                continue
            if ref == 'zero':
                ref, tol = 0.0, 0.0
                seen.add('degenerate')
            else:
                tol = 1e-7
            if i == j and tol:
                g.require(abs(S[i, i] - 1) < 1e-7, 'similarity of kernel {} with itself: {}', i,
                          S[i, i])
            g.require(abs(S[i, j] - ref) <= tol, 'similarity ({}, {}) is {!r} instead of {!r}', i, j,
                      S[i, j], ref)
            g.require(S[i, j] == S[j, i] or abs(S[i, j] - S[j, i]) < 1e-12, 'not symmetric')
    if case['metric'] == 'corr' and pearson(full[0], full[-1]) is not None:
        T = pairwise_similarity(ks)  # the default
        g.require(abs(T[0, -1] - S[0, -1]) < 1e-12, 'default metric differs from corr')
    # the same set again: with the other metric, then after its members have changed
    def compare(what, metric, mats_):
        out = pairwise_similarity(ks, metric=metric)
        g.require(out.shape == (len(mats_),) * 2, '{}: shape {}', what, out.shape)
        for i in range(len(mats_)):
            for j in range(i, len(mats_)):
                ref = (pearson if metric == 'corr' else alignment)(mats_[i], mats_[j])
                if ref is None or ref == 'zero':
                    continue
                g.require(abs(out[i, j] - ref) < 1e-7, '{}: similarity ({}, {}) is {!r} instead '
                          'of {!r}', what, i, j, out[i, j], ref)

    if not any('const' in m for m in case['members']):
        compare('other metric', 'align' if case['metric'] == 'corr' else 'corr', full)
    changed = False
    for m in ks:
        if hasattr(m, 'attach_to'):
            m.attach_to(np.roll(X, 1, axis=0), 'shifted')
            changed = True
    if changed:
        now = [np.array(m.full) for m in ks]
        compare('after attaching the members to another sample', case['metric'], now)
        seen.add('re-attached')
    if len(full) < 6:
        ks.append(full[0] + full[0].T)
        full = [np.array(m.full) for m in ks]
        compare('after adding a matrix', case['metric'], full)
    ctx.label(case['metric'], *seen)
    ctx.interesting(len(full) > 1)


SUBS = [
    Sub('ideal', targets, run_ideal, n=2500, rule='at least two different targets'),
    Sub('correlation', pairs, run_corr, n=3000, rule='neither matrix is (nearly) constant'),
    Sub('pairwise', sets, run_pairs, n=2500, rule='more than one matrix in the set'),
]
