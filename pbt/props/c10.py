"""Oracle: definitions in extended precision; metamorphic: symmetry, self-alignment, bounds,
invariance to positive rescaling and added constants; degenerate norms by construction."""
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist, mats

LD = np.longdouble


@st.composite
def rect(draw):
    n, m = draw(g.sizes(1, 9, 40)), draw(g.sizes(1, 9, 40))
    return dict(a=draw(mats.mats(n=n, m=m)), b=draw(mats.mats(n=n, m=m)))


def run_frob(case, ctx):
    from kernelmethods.operations import frobenius_norm, frobenius_product
    A, B = mats.build(case['a']), mats.build(case['b'])
    P = A.astype(LD) * B.astype(LD)
    tol = LD(mats.eps_of(A, B)) * (P.size + 32) * np.abs(P).sum() + LD(1e-300)
    for what, got in (('<A,B>', frobenius_product(A, B)), ('<B,A>', frobenius_product(B, A))):
        g.same(what, np.array([got]), np.array([P.sum()]), tol)
    for M in (A, B):
        F = np.sqrt((M.astype(LD) ** 2).sum())
        g.same('norm', np.array([frobenius_norm(M)]), np.array([F]),
               LD(mats.eps_of(M)) * (M.size + 32) * F + LD(1e-150))
    ctx.label(case['a']['kind'])
    ctx.interesting(A.size > 1 and float(np.abs(P).sum()) > 0)


@st.composite
def square(draw):
    kinds = ('psd', 'sym', 'any', 'int', 'i1', 'u1', 'i2', 'sparse', 'lit', 'lowrank', 'f4', 'f2')
    a = draw(mats.mats(kinds=kinds, big_n=80))
    b = draw(mats.mats(n=a['n'], kinds=kinds))
    return dict(a=a, b=b, al=draw(g.pos_eighths), c=draw(g.eighths),
                centered=draw(st.booleans()), value=draw(st.sampled_from(('raise', 0.0, -1.0))))


def run_align(case, ctx):
    from kernelmethods.operations import alignment_centered
    A, B = mats.build(case['a']), mats.build(case['b'])
    AL, BL = A.astype(LD), B.astype(LD)
    if case['centered']:
        CA, CB = AL, BL
    else:
        z = np.zeros(A.shape, LD)
        CA, CB = hist.center_ref(AL, z)[0], hist.center_ref(BL, z)[0]
    fa, fb = np.sqrt((CA ** 2).sum()), np.sqrt((CB ** 2).sum())
    n = len(A)
    err = LD(mats.eps_of(A, B)) * (8 * n + 64)
    # relative errors of the centered matrices
    ea = err * np.abs(AL).max() * n / max(fa, LD(1e-300))
    eb = err * np.abs(BL).max() * n / max(fb, LD(1e-300))
    if fa < 1e-5 or fb < 1e-5 or ea > 1e-3 or eb > 1e-3:
        ctx.label('degenerate')
        return
    val = (CA * CB).sum() / (fa * fb)
    tol = 4 * (ea + eb) + LD(1e-12)
    kw = dict(centered_already=case['centered'], value_if_zero_division=case['value'])

    def al(x, y):
        return np.array([alignment_centered(x, y, **kw)])

    ref = np.array([val])
    g.same('alignment(A, B)', al(A, B), ref, tol)
    g.same('alignment(B, A)', al(B, A), ref, tol)
    g.same('alignment(A, A)', al(A, A.copy()), np.ones(1), 8 * ea + LD(1e-12))
    g.require(abs(float(al(A, B)[0])) <= 1 + float(tol), 'alignment beyond 1: {}', al(A, B))
    F = A.astype('f8')
    if fa * LD(case['al']) > 1e-5:
        g.same('rescaled', al(F * case['al'], B), ref, tol)
        g.same('negated', al(F * -case['al'], B), -ref, tol)
    if not case['centered']:
        shift = abs(case['c']) * n * err / fa
        g.same('added constant', al(F + case['c'], B), ref, tol + 8 * shift)
    ctx.label(case['a']['kind'], 'centered' if case['centered'] else 'to be centered')
    ctx.interesting(n > 1)


@st.composite
def degenerate(draw):
    n = draw(g.sizes(1, 8, 40))
    return dict(n=n, kind=draw(st.sampled_from(('zero', 'const', 'rowcol', 'tiny'))),
                other=draw(mats.mats(n=n)), first=draw(st.booleans()),
                value=draw(st.sampled_from(('raise', 'exc', 0.0, -1.0, 0.25, 1, -7.5))),
                s=draw(g.seeds), centered=draw(st.booleans()), both=draw(st.booleans()))


def run_degenerate(case, ctx):
    from kernelmethods.operations import alignment_centered
    n, kind = case['n'], case['kind']
    r = np.random.RandomState(case['s'])
    centered = case['centered']
    if kind == 'zero' or centered:
        Z = np.zeros((n, n))
    elif kind == 'const':
        Z = np.full((n, n), r.randint(-5, 6) / 2)
    elif kind == 'rowcol':
        Z = r.randint(-5, 6, (n, 1)) / 4 + r.randint(-5, 6, (1, n)) / 4
    else:
        Z = r.randn(n, n) * 1e-13
    O = Z.copy() if case['both'] else mats.build(case['other'])
    pair = (Z, O) if case['first'] else (O, Z)
    value = Exception if case['value'] == 'exc' else case['value']
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        if case['value'] in ('raise', 'exc'):
            g.raises('zero norm', ValueError, alignment_centered, *pair,
                     value_if_zero_division=value, centered_already=centered)
            if case['value'] == 'raise':
                g.raises('zero norm by default', ValueError, alignment_centered, *pair,
                         centered_already=centered)
        else:
            out = alignment_centered(*pair, value_if_zero_division=value,
                                     centered_already=centered)
            g.require(out == value, 'zero norm gave {!r}, requested {!r}', out, value)
            g.require(len(log) > 0, 'no warning about the zero norm')
    ctx.label(kind, str(case['value']))
    ctx.interesting()


@st.composite
def mismatch(draw):
    n, m = draw(g.sizes(1, 8, 30)), draw(g.sizes(1, 8, 30))
    return dict(n=n, m=m, dn=draw(st.integers(0, 3)), dm=draw(st.integers(0, 3)),
                what=draw(st.sampled_from(('product', 'align', 'align_centered'))),
                value=draw(st.sampled_from(('raise', 0.0))), s=draw(g.seeds))


def run_mismatch(case, ctx):
    from kernelmethods.operations import alignment_centered, frobenius_product
    n, m, dn, dm = case['n'], case['m'], case['dn'], case['dm']
    if case['what'] != 'product':
        m, dm = n, dn
    if dn == dm == 0:
        dn = 1
        dm = 1 if case['what'] != 'product' else 0
    r = np.random.RandomState(case['s'])
    A, B = r.rand(n, m), r.rand(n + dn, m + dm)
    for x, y in ((A, B), (B, A)):
        if case['what'] == 'product':
            g.raises('shapes {} {}'.format(x.shape, y.shape), ValueError, frobenius_product, x, y)
        else:
            g.raises('shapes {} {}'.format(x.shape, y.shape), ValueError, alignment_centered, x, y,
                     value_if_zero_division=case['value'],
                     centered_already=case['what'] == 'align_centered')
    ctx.label(case['what'])
    ctx.interesting()


SUBS = [
    Sub('frobenius', rect, run_frob, n=3000, rule='more than one entry, non-zero product'),
    Sub('alignment', square, run_align, n=5000,
        rule='more than one row, both centered norms well above zero'),
    Sub('degenerate', degenerate, run_degenerate, n=2500,
        rule='every case has a zero centered norm by construction'),
    Sub('mismatch', mismatch, run_mismatch, n=600, rule='every case has different shapes'),
]
