"""Oracle: matrices with a constructed spectrum (smallest eigenvalue on a known side of the
threshold), corrupted symmetric matrices, and Gram matrices of kernels known to be PSD."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist


@st.composite
def spectra(draw):
    n = draw(g.sizes(1, 8, 70))
    return dict(n=n, s=draw(g.seeds), tol=draw(st.sampled_from((None, None, 1e-6, 1e-4, 1e-2, 1.0))),
                low=draw(st.sampled_from((-1000.0, -30.0, -3.0, -0.3, 0.0, 0.5, 3.0, 1e3))),
                mult=draw(st.integers(1, 3)), top=draw(st.sampled_from((1.0, 10.0, 100.0))),
                basis=draw(st.sampled_from(('random', 'diag', 'pair', 'block'))),
                pos=draw(st.integers(0, 100)), verbose=draw(st.booleans()),
                layout=draw(st.sampled_from(('C', 'F', 'rows', 'cols', 'rev', 'ro'))))


def with_spectrum(case):
    n = case['n']
    r = np.random.RandomState(case['s'])
    tol = 1e-6 if case['tol'] is None else case['tol']
    low = case['low'] * tol
    w = np.sort(r.rand(n)) * case['top'] + max(low, 0) + 0.1
    w[:min(case['mult'], n)] = low
    if case['basis'] == 'diag':
        w = np.roll(w, case['pos'])
        return np.diag(w), low >= -tol
    if case['basis'] == 'pair' and n >= 2:
        c, s = np.cos(0.7), np.sin(0.7)
        Q = np.eye(n)
        i, j = case['pos'] % n, (case['pos'] + 1) % n
        Q[i, i], Q[j, j], Q[i, j], Q[j, i] = c, c, s, -s
    else:
        Q, _ = np.linalg.qr(r.randn(n, n))
    A = (Q * w) @ Q.T
    return (A + A.T) / 2, low >= -tol


def verdict(M, tol, verbose):
    from kernelmethods.operations import is_PSD
    kw = {} if tol is None else dict(tolerance=tol)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        out = is_PSD(M, verbose=verbose, **kw)
    g.require(isinstance(out, (bool, np.bool_)), 'verdict is not boolean: {!r}', out)
    return bool(out)


def run_spectra(case, ctx):
    A, want = with_spectrum(case)
    got = verdict(g.lay(A, case['layout']), case['tol'], case['verbose'])
    g.require(got == want, 'is_PSD is {} for smallest eigenvalue {} x tolerance {}', got,
              case['low'], case['tol'])
    from kernelmethods.operations import is_positive_semidefinite
    g.require(bool(is_positive_semidefinite(A, *([] if case['tol'] is None else [case['tol']])))
              == want, 'is_positive_semidefinite differs')
    ctx.label('low:{}'.format(case['low']), case['basis'])
    ctx.interesting(case['n'] > 1)


@st.composite
def invalid(draw):
    c = draw(spectra())
    c['low'] = draw(st.sampled_from((0.5, 3.0, 1e3)))
    c['bad'] = draw(st.sampled_from(('asym', 'asym', 'slight', 'nan', 'nandiag', 'inf', 'ninf', 'wide',
                                     'tall', 'list', 'none', 'tuple')))
    c['by'] = draw(st.sampled_from((0.01, 1.0, -0.5, 50.0)))
    c['rel'] = draw(st.sampled_from((1e-4, 1e-3, 1e-2)))
    c['ij'] = [draw(st.integers(0, 100)), draw(st.integers(0, 100))]
    return c


def run_invalid(case, ctx):
    A, _ = with_spectrum(case)
    n, bad = len(A), case['bad']
    i, j = case['ij'][0] % n, case['ij'][1] % n
    if i == j and n > 1 and bad in ('asym', 'slight'):
        j = (i + 1) % n
    if bad == 'slight':
        if n == 1:
            return
        # well beyond rounding, yet small compared to the values
        top = max(1.0, abs(A).max())
        A = A + np.eye(n) * top + top / 2
        A[i, j] += top * case['rel']
    elif bad == 'asym':
        if n == 1:
            return
        A[i, j] += case['by'] * (1 + abs(A[i, j]) + abs(A[j, i]))
    elif bad in ('nan', 'inf', 'ninf'):
        A[i, j] = A[j, i] = {'nan': np.nan, 'inf': np.inf, 'ninf': -np.inf}[bad]
    elif bad == 'nandiag':
        A[i, i] = np.nan
    elif bad == 'wide':
        A = np.hstack([A, A[:, :1]])
    elif bad == 'tall':
        A = np.vstack([A, A])
    if bad in ('list', 'none', 'tuple'):
        obj = {'list': A.tolist(), 'none': None, 'tuple': tuple(map(tuple, A.tolist()))}[bad]
        g.raises('is_PSD of a ' + bad, TypeError, verdict, obj, case['tol'], case['verbose'])
    else:
        g.require(not verdict(A, case['tol'], case['verbose']), 'is_PSD accepts a {} matrix', bad)
    ctx.label(bad)
    ctx.interesting()


TYPES = {'f8': 1e5, 'f4': 1e5, 'f2': 2048, 'i1': 127, 'u1': 255, 'i2': 3e4, 'i4': 1e5, 'i8': 1e5}


@st.composite
def integral(draw):
    return dict(n=draw(g.sizes(1, 8, 60)), d=draw(st.integers(1, 4)), hi=draw(st.integers(1, 12)),
                t=draw(st.sampled_from(sorted(TYPES))), s=draw(g.seeds),
                layout=draw(st.sampled_from(('C', 'F', 'rows', 'ro'))),
                off=draw(st.sampled_from((None, None, 1, 2, 100))), pos=draw(st.integers(0, 100)))


def run_integral(case, ctx):
    """Integral Gram matrices (usually singular) are exact in every type."""
    r = np.random.RandomState(case['s'])
    hi, n = case['hi'], case['n']
    while hi * hi * case['d'] > TYPES[case['t']]:
        hi -= 1
    A = r.randint(0 if case['t'] == 'u1' else -hi, hi + 1, (n, case['d']))
    K = A @ A.T
    if case['off'] is not None:  # a 2 x 2 minor or diagonal entry below zero
        i = case['pos'] % n
        if case['t'] == 'u1':
            if n == 1:
                return
            K[i, i] = 0
            K[i, i - 1] = K[i - 1, i] = min(case['off'], 9)
        else:
            K[i, i] = -case['off']
    got = verdict(g.lay(K.astype(case['t']), case['layout']), None, False)
    g.require(got == (case['off'] is None), 'is_PSD is {} for an integral Gram matrix{}', got,
              '' if case['off'] is None else ' made indefinite')
    ctx.label(case['t'], 'gram' if case['off'] is None else 'indefinite')
    ctx.interesting(n > case['d'])


@st.composite
def grams(draw):
    kind = draw(st.sampled_from(g.PSD + ('match',)))
    normalized = draw(st.booleans())
    if kind == 'match':
        n, d = draw(g.sizes(1, 9, 30)), draw(g.sizes(1, 6))
        return dict(kernel={'k': 'match', 'perc': draw(st.booleans())}, n=n, d=d, s=draw(g.seeds),
                    levels=draw(st.integers(1, 4)), normalized=normalized)
    k = draw(g.kernels((kind,)))
    x = draw(g.samples(max_n=10, big_n=50, f32=False, **g.needs(k)))
    return dict(kernel=k, x=x, normalized=normalized)


def run_grams(case, ctx):
    from kernelmethods.base import KernelMatrix
    from kernelmethods.categorical import MatchCountKernel
    from kernelmethods.operations import is_PSD
    spec = case['kernel']
    if spec['k'] == 'match':
        r = np.random.RandomState(case['s'])
        X = np.array(['a', 'bb', 'ccc', 'd'])[r.randint(0, case['levels'], (case['n'], case['d']))]
        km = KernelMatrix(MatchCountKernel(return_perc=spec['perc']),
                          normalized=case['normalized'])
        km.attach_to(X)
        K = km.full
    else:
        X = g.build(case['x'])
        model = hist.spec_model(spec, X)
        if case['normalized']:
            v, _, T = model.norm
        else:
            v, T = 'ok', model.K[1]
        if v != 'ok' or not float(T.max()) * len(X) < 1e-7:
            ctx.label('too large for the absolute tolerance')
            return
        km = KernelMatrix(g.make_kernel(spec), normalized=case['normalized'])
        km.attach_to(X)
        K = km.full
    g.require(bool(is_PSD(K)), '{} matrix is judged not PSD', spec['k'])
    w = np.linalg.eigvalsh(K)
    g.require(w[0] > -1e-6 * max(1.0, 1e-8 * w[-1]), '{} matrix has eigenvalue {}', spec['k'], w[0])
    ctx.label(spec['k'], 'normalized' if case['normalized'] else 'plain')
    ctx.interesting(len(X) > 1)


@st.composite
def funcs(draw):
    return dict(kernel=draw(g.kernels(g.PSD)))


def run_funcs(case, ctx):
    k = g.make_kernel(case['kernel'])
    g.require(bool(k.is_psd()), '{} does not consider itself PSD', case['kernel'])
    ctx.label(case['kernel']['k'])
    ctx.interesting()


SUBS = [
    Sub('integral', integral, run_integral, n=3000, rule='more samples than features (singular)'),
    Sub('spectra', spectra, run_spectra, n=4000, rule='more than one row'),
    Sub('invalid', invalid, run_invalid, n=3000, rule='every case is not PSD or not an array'),
    Sub('gram', grams, run_grams, n=3000, rule='more than one sample'),
    Sub('is_psd', funcs, run_funcs, n=300, rule='every case evaluates a 50x50 matrix'),
]
