"""Oracle: extended-precision cosine normalization; metamorphic: unit diagonal, idempotence,
invariance to per-sample rescaling, bounded entries for PSD matrices, agreement of the two-sample
form with the block of the pooled matrix."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist

LD = np.longdouble


@st.composite
def matrices(draw):
    n = draw(g.sizes(1, 9, 80))
    return dict(n=n, m=draw(g.sizes(1, 9, 80)), s=draw(g.seeds),
                kind=draw(st.sampled_from(('psd', 'psd', 'sym', 'any', 'int', 'f4', 'f2', 'i1', 'u1', 'i2', 'ident'))),
                scale=draw(st.sampled_from((1.0, 1e-2, 1e3, 1e5))), layout=draw(
                    st.sampled_from(('C', 'F', 'rows', 'ro', 'cols'))),
                spread=draw(st.booleans()), case=draw(st.sampled_from(('cosine', 'Cosine'))))


def square(case, n=None):
    n = n or case['n']
    r = np.random.RandomState(case['s'])
    A = r.randn(n, n + 2)
    K = A @ A.T + 0.05 * np.eye(n)
    kind = case['kind']
    if kind == 'sym':
        K = r.randn(n, n)
        K = K + K.T
        np.fill_diagonal(K, r.rand(n) + 0.2)
    elif kind == 'any':
        K = r.randn(n, n)
        np.fill_diagonal(K, r.rand(n) + 0.2)
    elif kind == 'ident':
        K = np.eye(n)
    if case['spread']:
        w = 2.0 ** r.randint(-4, 5, n)
        K = K * np.outer(w, w)
    K = K * case['scale']
    if kind == 'int':
        K = np.round(K * 10).astype('i8')
        K = (K + K.T) // 2
        np.fill_diagonal(K, np.maximum(K.diagonal(), 1))
    elif kind == 'f4':
        K = K.astype('f4')
    elif kind in ('f2', 'i1', 'u1', 'i2'):  # narrow types, made to fit
        hi = {'f2': 3e4, 'i1': 127, 'u1': 255, 'i2': 3e4}[kind]
        K = K * (hi / np.abs(K).max())
        if kind == 'u1':
            K = np.abs(K)
        if kind != 'f2':
            K = np.round((K + K.T) / 2)
            np.fill_diagonal(K, np.maximum(K.diagonal(), 1))
        K = K.astype(kind)
    return K


def tol_of(K):
    return (LD(4e-16) if K.dtype != np.float32 else LD(2.5e-7)) * (max(K.shape) + 16)


def ref(K, dx, dy):
    return K.astype(LD) / np.sqrt(np.outer(dx.astype(LD), dy.astype(LD)))


def run_square(case, ctx):
    from kernelmethods.operations import normalize_km, normalize_km_2sample
    K0 = square(case)
    K = g.lay(K0, case['layout'])
    if K0.diagonal().min() < 1e-5:
        return
    R = ref(K0, K0.diagonal(), K0.diagonal())
    t = tol_of(K0)
    N = normalize_km(K, method=case['case'])
    g.same('normalize_km', N, R, t * (1 + np.abs(R)))
    g.same('unit diagonal', np.diagonal(N).copy(), np.ones(len(K0)), t * 4)
    g.same('normalize_km twice', normalize_km(N), R, 4 * t * (1 + np.abs(R)))
    w = 2.0 ** np.random.RandomState(case['s'] ^ 5).randint(-3, 4, len(K0))
    S = K0.astype('f8') * np.outer(w, w)
    if S.diagonal().min() > 1e-5:
        g.same('rescaled', normalize_km(S), R, 4 * t * (1 + np.abs(R)))
    if case['kind'] in ('psd', 'ident'):
        g.require(float(np.abs(N).max()) <= 1 + 1e-6, 'normalized PSD matrix has entry {}',
                  np.abs(N).max())
    d = K0.diagonal().copy()
    g.same('two-sample form of the same matrix', normalize_km_2sample(K, d, d.copy()), R,
           t * (1 + np.abs(R)))
    ctx.label(case['kind'], case['layout'])
    ctx.interesting(len(K0) > 1)


def run_block(case, ctx):
    from kernelmethods.operations import normalize_km, normalize_km_2sample
    n, m = case['n'], case['m']
    P = square(case, n + m)
    if P.diagonal().min() < 1e-5:
        return
    d = P.diagonal().copy()
    B = g.lay(P[:n, n:].copy(), case['layout'])
    R = ref(P[:n, n:], d[:n], d[n:])
    t = tol_of(P)
    got = normalize_km_2sample(B, d[:n], d[n:], method=case['case'])
    g.same('normalize_km_2sample', got, R, t * (1 + np.abs(R)))
    g.same('block of the pooled matrix', got, normalize_km(P)[:n, n:], 4 * t * (1 + np.abs(R)))
    got = normalize_km_2sample(B.T, d[n:], d[:n])
    g.same('transposed', got, R.T, t * (1 + np.abs(R.T)))
    ctx.label('wide' if m > n else 'tall' if n > m else 'square')
    ctx.interesting(n + m > 2)


@st.composite
def refusals(draw):
    c = draw(matrices())
    c['bad'] = draw(st.sampled_from(('zero', 'zero', 'zero2x', 'zero2y', 'nonsquare', 'rows',
                                     'cols', 'method', 'method2')))
    c['pos'] = draw(st.integers(0, 200))
    c['eps'] = draw(st.sampled_from((0.0, 1e-12, 1e-10, 0.0)))
    c['name'] = draw(st.sampled_from(('none', 'l2', 'cos', 'cosine2', 'frobenius', '')))
    return c


def run_refuse(case, ctx):
    from kernelmethods.config import KMNormError
    from kernelmethods.operations import normalize_km, normalize_km_2sample
    c = dict(case, kind='psd')
    n, m = c['n'], c['m']
    P = square(c, n + m)
    d = P.diagonal().copy()
    K, B = P[:n, :n].copy(), P[:n, n:].copy()
    dx, dy = d[:n].copy(), d[n:].copy()
    bad = c['bad']
    if bad == 'zero':
        K[c['pos'] % n, c['pos'] % n] = c['eps']
        g.raises('zero on the diagonal', KMNormError, normalize_km, K)
    elif bad == 'zero2x':
        dx[c['pos'] % n] = c['eps']
        g.raises('zero self-similarity in X', KMNormError, normalize_km_2sample, B, dx, dy)
    elif bad == 'zero2y':
        dy[c['pos'] % m] = c['eps']
        g.raises('zero self-similarity in Y', KMNormError, normalize_km_2sample, B, dx, dy)
    elif bad == 'nonsquare':
        if n == m:
            B = B[:, 1:] if m > 1 else np.ones((1, 2))
        g.raises('non-square', ValueError, normalize_km, B)
    elif bad == 'rows':
        g.raises('mismatched rows', ValueError, normalize_km_2sample, B, d[:n + 1], dy)
    elif bad == 'cols':
        g.raises('mismatched columns', ValueError, normalize_km_2sample, B, dx,
                 np.append(dy, 1.0))
    elif bad == 'method':
        g.raises('unknown method', NotImplementedError, normalize_km, K, method=c['name'])
    else:
        g.raises('unknown method', NotImplementedError, normalize_km_2sample, B, dx, dy,
                 method=c['name'])
    ctx.label(bad)
    ctx.interesting()


@st.composite
def through_km(draw):
    k = draw(g.kernels())
    kw = g.needs(k)
    d = draw(g.sizes(1, 5))
    x = draw(g.samples(d=d, max_n=8, big_n=40, **kw))
    y = draw(g.samples(d=d, max_n=8, big_n=40, **kw))
    return dict(kernel=k, x=x, y=y, normalized=draw(st.booleans()),
                first=draw(st.sampled_from(('none', 'unknown', 'full', 'sel'))))


def run_km(case, ctx):
    from kernelmethods.base import KernelMatrix
    X, Y = g.build(case['x']), g.build(case['y'])
    checked = 0
    for A, B in ((X, None), (X, Y), (Y, X)):
        model = hist.spec_model(case['kernel'], A, B)
        km = KernelMatrix(g.make_kernel(case['kernel']), normalized=case['normalized'])
        if B is None:
            km.attach_to(A)
        else:
            km.attach_to(A, sample_two=B, name_two='B')
        if case['first'] == 'unknown':
            # refused, whatever the samples
            g.raises('unknown method', (NotImplementedError,), km.normalize, method='l1-norm')
        elif case['first'] == 'sel':
            km[0, 0]
        elif case['first'] == 'full' and not case['normalized']:
            hist.apply_view(km, 'full', model, False)
        for op in ('normed', 'normalize', 'full', 'normed'):
            try:
                hist.apply_view(km, op, model, case['normalized'])
                checked += model.verdict == 'ok'
            except hist.Refused:
                ctx.label('refused')
    # the two-sample form is the block of the pooled one
    if X.dtype == Y.dtype:
        kern = g.make_kernel(case['kernel'])
        pool = KernelMatrix(kern)
        pool.attach_to(np.vstack([X, Y]))
        cross = KernelMatrix(kern)
        cross.attach_to(X, sample_two=Y, name_two='Y')
        model = hist.spec_model(case['kernel'], X, Y)
        if model.verdict == 'ok':
            _, N, TN = model.norm
            g.same('block of the pooled matrix', np.asarray(cross.full),
                   np.asarray(pool.full)[:len(X), len(X):], 2 * TN)
    ctx.label(case['kernel']['k'])
    ctx.interesting(checked > 0 and len(X) > 1)


SUBS = [
    Sub('square', matrices, run_square, n=3000, rule='matrix larger than 1x1'),
    Sub('two_sample', matrices, run_block, n=3000, rule='block of a matrix larger than 2x2'),
    Sub('refusals', refusals, run_refuse, n=2000, rule='every case must be refused'),
    Sub('kernel_matrix', through_km, run_km, n=2500,
        rule='a normalized one- or two-sample matrix with several rows was compared'),
]
