"""Oracle: (I-J)K(I-J) in extended precision; metamorphic: zero sums, idempotence, invariance to
row/column constants, linearity, symmetry, PSD preservation, mean-centered sample for the linear
kernel."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist, mats

LD = np.longdouble


@st.composite
def cases(draw):
    a = draw(mats.mats(big_n=120))
    b = draw(mats.mats(n=a['n']))
    return dict(a=a, b=b, alpha=draw(st.sampled_from((0.5, -2.0, 3.0, 0.0))), c=draw(g.eighths))


def run(case, ctx):
    from kernelmethods.operations import center_km
    A, B = mats.build(case['a']), mats.build(case['b'])
    n = len(A)
    eps = LD(mats.eps_of(A)) * (4 * n + 64)
    mag = np.abs(A.astype(LD)).max()
    R, _ = hist.center_ref(A.astype(LD), np.zeros(A.shape, LD))
    tol = eps * mag + LD(1e-300)
    C = center_km(A)
    g.same('center_km', C, R, tol)
    g.same('row sums', C.astype('f8').sum(1), np.zeros(n), n * tol)
    g.same('column sums', C.astype('f8').sum(0), np.zeros(n), n * tol)
    g.same('centering twice', center_km(C), R, 4 * tol)
    r = np.random.RandomState(n).randint(-9, 10, (2, n)) / 2
    S = A.astype('f8') + case['c'] + r[0][:, None] + r[1][None, :]
    g.same('adding row and column constants', center_km(S), R,
           tol + eps * (np.abs(S).max() + abs(case['c']) + 10))
    L = A.astype('f8') + case['alpha'] * B.astype('f8')
    RB, _ = hist.center_ref(B.astype(LD), np.zeros(B.shape, LD))
    g.same('linearity', center_km(L), R + LD(case['alpha']) * RB,
           LD(2.3e-16) * (4 * n + 64) * (np.abs(L).max() + mag +
                                         4 * np.abs(B.astype('f8')).max()) + LD(1e-300))
    if (A == A.T).all():
        g.same('symmetry', C, C.T, 2 * tol)
        if case['a']['kind'] == 'psd':
            w = np.linalg.eigvalsh((C + C.T).astype('f8') / 2)
            g.require(w[0] >= -float(n * tol) - 1e-9 * max(1.0, w[-1]),
                      'centered PSD matrix has eigenvalue {}', w[0])
    ctx.label(case['a']['kind'])
    ctx.interesting(n > 1 and float(np.abs(R).max()) > 1e3 * float(tol))


@st.composite
def through_km(draw):
    k = draw(g.kernels())
    x = draw(g.samples(max_n=9, big_n=60, **g.needs(k)))
    return dict(kernel=k, x=x, normalized=draw(st.booleans()), twice=draw(st.booleans()),
                first=draw(st.sampled_from(('none', 'full', 'sparse', 'sel', 'normed'))))


def run_km(case, ctx):
    from kernelmethods.base import KernelMatrix
    X = g.build(case['x'])
    km = KernelMatrix(g.make_kernel(case['kernel']), normalized=case['normalized'])
    km.attach_to(X)
    model = hist.spec_model(case['kernel'], X)
    if case['first'] == 'sel':
        km[0, :]
    elif case['first'] != 'none':
        try:
            hist.apply_view(km, case['first'], model, case['normalized'])
        except hist.Refused:
            pass
    hist.apply_view(km, 'centered', model, case['normalized'])
    if case['twice']:
        km.center()
        hist.apply_view(km, 'centered', model, case['normalized'])
    if case['kernel']['k'] == 'linear' and model.finite:
        Z = X.astype(LD) - X.astype(LD).mean(0)
        g.same('kernel of the mean-centered sample', km.centered, Z @ Z.T,
               hist.center_ref(*model.K)[1])
    ctx.label(case['kernel']['k'], case['first'])
    ctx.interesting(len(X) > 1)


@st.composite
def refusals(draw):
    bad = draw(st.sampled_from(('tall', 'wide', 'list', 'none', 'nested', 'float', 'str')))
    n = draw(g.sizes(1, 9, 40))
    return dict(bad=bad, n=n, by=draw(st.integers(1, 4)), s=draw(g.seeds))


def run_refuse(case, ctx):
    from kernelmethods.operations import center_km
    n, by = case['n'], case['by']
    r = np.random.RandomState(case['s'])
    arg = {'tall': r.rand(n + by, n), 'wide': r.rand(n, n + by), 'list': r.rand(n).tolist(),
           'none': None, 'nested': r.rand(n, n).tolist(), 'float': 1.0, 'str': 'K'}[case['bad']]
    g.raises('center_km({})'.format(case['bad']), ValueError, center_km, arg)
    ctx.label(case['bad'])
    ctx.interesting()


SUBS = [
    Sub('center_km', cases, run, n=4000,
        rule='more than one row, and a centered matrix that is not just rounding noise'),
    Sub('kernel_matrix', through_km, run_km, n=2500, rule='more than one sample'),
    Sub('refusals', refusals, run_refuse, n=400, rule='every case must be refused'),
]
