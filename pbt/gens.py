"""Generators (JSON-able specs), builders and reference implementations."""
import functools
import glob
import math
import os

import numpy as np
from hypothesis import strategies as st

from pbt.core import REPO, Violation

LD = np.longdouble

# ---------------------------------------------------------------------------------------------
# numbers appearing in the code under test: a dictionary of potentially special sizes and values


@functools.lru_cache(None)
def code_numbers():
    ints, floats = set(), set()
    for values in numbers_by_module().values():
        for v in values:
            if isinstance(v, int) and 2 <= v <= 1100:
                ints.add(v)
            if isinstance(v, int) and 400 < v <= 100000:
                # possibly a number of elements or pairs: sizes giving that many
                ints.update((int(v ** 0.5), int((2 * v) ** 0.5)))
            elif isinstance(v, float) and 1e-4 < abs(v) < 1e4:
                floats.add(abs(v))
    return sorted(ints), sorted(floats)


@functools.lru_cache(None)
def numbers_by_module():
    """All numeric constants in the compiled code of each module."""
    out = {}
    for path in sorted(glob.glob(os.path.join(REPO, 'kernelmethods', '*.py'))):
        try:
            root = compile(open(path, encoding='utf-8').read(), path, 'exec')
        except (SyntaxError, OSError, UnicodeDecodeError):
            continue
        found = out.setdefault(os.path.basename(path), [])
        stack = [root]
        while stack:
            obj = stack.pop()
            if hasattr(obj, 'co_consts'):
                stack.extend(obj.co_consts)
            elif isinstance(obj, (tuple, frozenset)):
                stack.extend(obj)
            elif isinstance(obj, bool):
                continue
            elif isinstance(obj, (int, float)):
                found.append(obj)
    return out


# those of the code as first examined; others deserve more attention
USUAL = frozenset((2, 3, 4, 6, 7, 10, 0.001, 0.1, 1.0, 2.0, 10.0))
USUAL_IN = {'base.py': [50], 'ranking.py': [100]}


@functools.lru_cache(None)
def fresh_numbers():
    """Numbers in the code that were not there when the generators were written."""
    ints, floats = code_numbers()
    usual = set(USUAL)
    for v, where in ((v, m) for m, vs in USUAL_IN.items() for v in vs):
        count = {m: vs.count(v) for m, vs in numbers_by_module().items() if v in vs}
        if set(count) <= {where} and count.get(where, 1) == 1:
            usual.add(v)
    return ([c for c in ints if c not in usual], [c for c in floats if c not in usual])


def fresh_sizes(lo, hi, cap):
    """Sizes around those numbers, unless they are between lo and hi anyway."""
    return sorted({int(c) + k for c in fresh_numbers()[0] + [
        f for f in fresh_numbers()[1] if f == int(f)] for k in (-1, 0, 1, 2)
        if lo <= c + k <= cap and not lo <= c + k <= hi})


def rarely(often, seldom, one_in=40):
    return st.integers(0, one_in - 1).flatmap(lambda k: seldom if k == one_in // 2 else often)


def about(lo, hi, cap=140):
    """Integers of a range, sometimes sizes around new constants of the code."""
    fresh = fresh_sizes(lo, hi, cap)
    base = st.integers(lo, hi)
    return st.one_of(base, base, base, base, st.sampled_from(fresh)) if fresh else base


def sizes(lo, hi, big=None, huge=320):
    """Sizes: mostly small, sometimes around constants of the code, sometimes up to ``big``; rarely
    around new constants of the code up to ``huge``."""
    cap = max(big, 140) if big else max(hi, 36)
    fresh = fresh_sizes(lo, hi, cap)
    near = sorted({c + k for c in code_numbers()[0] for k in (-1, 0, 1, 2)
                   if lo <= c + k <= (big or hi)})
    opts = [st.integers(lo, min(hi, max(lo, 6))), st.integers(min(hi, max(lo, 2)), hi),
            st.integers(min(hi, max(lo, 3)), min(hi, max(lo, 7)))]
    if near:
        opts.append(st.sampled_from(near))
    if big:
        opts.append(st.integers(min(hi, big), big))
    if fresh:
        opts.append(st.sampled_from(fresh))
    large = fresh_sizes(lo, cap, huge)
    return rarely(st.one_of(opts), st.sampled_from(large)) if large else st.one_of(opts)


eighths = st.integers(-40, 40).map(lambda k: k / 8)
pos_eighths = st.integers(1, 40).map(lambda k: k / 8)
rough = st.floats(-60, 60, allow_nan=False, width=32).map(
    lambda f: 0.0 if abs(f) < 1e-3 else float(f))
seeds = st.integers(0, 2 ** 31 - 1)


def number(positive=False, zero=True):
    base = st.one_of(eighths, st.integers(-9, 9).map(float), rough)
    fresh = [float(c) * k for c in sum(fresh_numbers(), []) if 1e-3 <= c <= 60
             for k in (1, -1, 0.5, 1.25)]
    if fresh:
        base = st.one_of(base, st.sampled_from(fresh))
    if positive:
        base = base.map(abs)
    if not zero:
        base = base.map(lambda v: v if v != 0 else 0.5)
    return base


FLOATS = ('f8', 'f8', 'f8', 'f4')
HALF = ('f2',)
INTS = ('i8', 'i4', 'i2', 'i1', 'u1', 'u2')
LAYOUTS = ('C', 'C', 'F', 'rows', 'cols', 'rev', 'ro')


@st.composite
def samples(draw, n=None, d=None, nonneg=False, nonzero=False, ints=True, f32=True,
            max_n=14, big_n=None, max_d=6, layouts=True, min_n=1, scale=True, dups=True,
            wide=False):
    n = draw(sizes(min_n, max_n, big_n)) if n is None else n
    d = draw(sizes(1, max_d, 12)) if d is None else d
    # half precision is promoted by the input checks, as integers are
    dt = draw(st.sampled_from((FLOATS if f32 else ('f8',)) +
                              ((INTS + (HALF if f32 else ())) if ints else ())))
    spec = {'t': dt, 'n': n, 'd': d}
    if layouts:
        spec['l'] = draw(st.sampled_from(LAYOUTS))
    if dt[0] in 'iu':
        neg = dt[0] == 'i' and not nonneg
        hi = draw(st.sampled_from((1, 3, 12, 90, 127)))
        spec.update(m='rng', dist='int', s=draw(seeds), sc=hi, neg=neg, nz=nonzero)
    elif n * d <= 24 and draw(st.booleans()):
        vals = draw(st.lists(number(nonneg, not nonzero), min_size=n * d, max_size=n * d))
        spec.update(m='lit', v=[vals[i * d:(i + 1) * d] for i in range(n)])
    else:
        dist = draw(st.sampled_from(('normal', 'unif', 'sparse', 'grid', 'binary')))
        sc = draw(st.sampled_from((1.0, 1.0, 1.0, 0.25, 4.0, 30.0)
                                  + ((1000.0, 0.02) if wide else ())
                                  + tuple(float(c) for c in sum(fresh_numbers(), [])
                                          if 0.05 <= c <= 60))) if scale else 1.0
        spec.update(m='rng', dist=dist, s=draw(seeds), sc=sc, neg=not nonneg, nz=nonzero)
    if n > 1 and dups and draw(st.integers(0, 4)) == 0:
        spec['dup'] = [draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))]
    return spec


def build(spec):
    """The ndarray described by a sample spec."""
    n, d = spec['n'], spec['d']
    dt = np.dtype(spec['t'])
    if spec['m'] == 'lit':
        a = np.array(spec['v'], dtype='f8').reshape(n, d)
    else:
        r = np.random.RandomState(spec['s'])
        dist, sc = spec['dist'], spec['sc']
        if dist == 'normal':
            a = r.randn(n, d) * sc
        elif dist == 'unif':
            a = (r.rand(n, d) * 2 - 1) * sc
        elif dist == 'sparse':
            a = r.randn(n, d) * sc * (r.rand(n, d) < 0.4)
        elif dist == 'grid':
            a = r.randint(-6, 7, (n, d)) / 4.0 * sc
        elif dist == 'binary':
            a = r.randint(0, 2, (n, d)) * float(sc)
        else:
            a = r.randint(-sc, sc + 1, (n, d)).astype('f8')
        if not spec['neg']:
            a = np.abs(a)
        a[np.abs(a) < 1e-3] = 0.0
        if spec['nz']:
            a[a == 0] = sc if dist == 'int' else sc / 2
    if 'dup' in spec:
        a[spec['dup'][0]] = a[spec['dup'][1]]
    a = a.astype(dt)
    return lay(a, spec.get('l', 'C'))


def lay(a, layout):
    """The same values in another memory layout."""
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'rows':
        b = np.zeros((2 * a.shape[0],) + a.shape[1:], a.dtype)
        b[::2] = a
        return b[::2]
    if layout == 'cols' and a.ndim == 2:
        b = np.zeros((a.shape[0], 2 * a.shape[1]), a.dtype)
        b[:, 1::2] = a
        return b[:, 1::2]
    if layout == 'rev':
        return np.ascontiguousarray(a[::-1])[::-1]
    if layout == 'ro':
        a = a.copy()
        a.flags.writeable = False
    return a


# ---------------------------------------------------------------------------------------------
# kernels

def f_sdot(x, y, w=1.0):
    return float(w * np.dot(x.astype('f8'), y.astype('f8')))


def f_rq(x, y, c=1.0):
    d = x.astype('f8') - y.astype('f8')
    q = float(np.dot(d, d))
    return 1.0 - q / (q + c)


def f_minsum(x, y, shift=0.0):
    return float(np.sum(np.minimum(np.abs(x.astype('f8')), np.abs(y.astype('f8')))) + shift)


def f_l1(x, y):
    return 1.0 / (1.0 + float(np.sum(np.abs(x.astype('f8') - y.astype('f8')))))


CUSTOM = {'sdot': (f_sdot, 'w'), 'rq': (f_rq, 'c'), 'minsum': (f_minsum, 'shift'),
          'l1': (f_l1, None)}


@functools.lru_cache(None)
def _subclass():
    from kernelmethods.base import BaseKernelFunction

    class RowKernel(BaseKernelFunction):
        def __init__(self, func, **params):
            super().__init__(name='RowKernel')
            self.func = func
            self.params = params

        def __call__(self, x, y):
            return self.func(x, y, **self.params)

        def __str__(self):
            return 'RowKernel<{}>'.format(sorted(self.params))

    return RowKernel


def _fparam(lo, hi, wide=False):
    fl = [v for v in code_numbers()[1] if lo <= v <= hi]
    near = [float(c) for c in code_numbers()[0] if lo <= c <= hi]
    opts = [st.integers(max(1, int(lo * 16)), int(hi * 16)).map(lambda k: k / 16)]
    if fl:
        opts.append(st.sampled_from(fl))
    if near and wide:
        opts.append(st.sampled_from(near))
    if wide:
        opts.append(st.floats(lo, hi, allow_nan=False).map(lambda v: float('%.6g' % v)))
    return st.one_of(opts)


NUMERIC = ('linear', 'poly', 'gaussian', 'laplacian', 'chi2', 'sigmoid', 'hadamard')
PSD = ('linear', 'poly', 'gaussian', 'laplacian', 'chi2')


@st.composite
def kernels(draw, kinds=NUMERIC + ('custom',), wide=False, skip=True):
    k = draw(st.sampled_from(kinds))
    s = {'k': k}
    if k == 'poly':
        s['degree'] = draw(st.integers(0 if wide else 1, 7 if wide else 4))
        if wide and draw(st.integers(0, 4)) == 0:
            s['degree'] = draw(st.sampled_from((0.5, 1.5, 2.5, 3.0, -1, -2, -1.5)))
        if draw(st.booleans()):
            s['gamma'] = draw(_fparam(0.0625, 4, wide))
            if wide and draw(st.integers(0, 3)) == 0:
                s['gamma'] = -s['gamma']
        if draw(st.booleans()):
            s['b'] = draw(st.sampled_from((0.0, 0.5, 1.0, 2.0, 3.25)))
            if wide and draw(st.integers(0, 3)) == 0:
                s['b'] = -s['b']
    elif k == 'gaussian':
        s['sigma'] = draw(_fparam(0.05 if wide else 0.5, 64 if wide else 8, wide))
    elif k in ('laplacian', 'chi2'):
        s['gamma'] = draw(_fparam(0.01 if wide else 0.0625, 40 if wide else 2, wide))
    elif k == 'sigmoid':
        s['gamma'] = draw(_fparam(0.01, 4, wide))
        s['offset'] = draw(st.sampled_from((1.0, 0.5, 2.0, 0.0, 0.25)
                                           + ((-1.0, -2.0) if wide else ())))
        if wide and draw(st.integers(0, 3)) == 0:
            s['gamma'] = -s['gamma']
    elif k == 'hadamard':
        s['alpha'] = draw(st.sampled_from((1, 2, 3, 4, 0.5, 1.5, 2.5)
                                          + ((-1, -2, -0.5, -3, 5) if wide else ())))
    elif k == 'custom':
        f = draw(st.sampled_from(sorted(CUSTOM)))
        s['f'] = f
        if CUSTOM[f][1] and draw(st.booleans()):
            s['p'] = draw(pos_eighths)
        s['how'] = draw(st.sampled_from(('callable', 'lambda', 'class')))
    if wide and 'gamma' in s and draw(st.integers(0, 7)) == 0:
        s['gamma'] = 0 if k == 'poly' else draw(st.sampled_from((0, 0.0)))
    if wide and draw(st.integers(0, 5)) == 0:  # whole numbers
        for key in ('sigma', 'gamma', 'b', 'offset'):
            if key in s and (int(s[key]) or key != 'sigma'):
                s[key] = int(s[key])
    if skip and k != 'custom' and draw(st.integers(0, 3)) == 0:
        s['skip'] = True
    if draw(st.integers(0, 6)) == 0 and k not in ('custom',):
        for key in ('degree', 'sigma', 'gamma', 'alpha', 'offset', 'b'):
            s.pop(key, None)  # all defaults
    return s


def no_zero_b(spec):
    """Avoids (nearly) zero self-similarities of the polynomial kernel."""
    return {q: v for q, v in spec.items() if not (q == 'b' and v == 0)}


def tame(kinds=('linear', 'gaussian', 'laplacian', 'poly')):
    return kernels(kinds, skip=False).map(no_zero_b)


DEFAULTS = {'poly': dict(degree=3, gamma=1.0, b=1.0), 'gaussian': dict(sigma=2.0),
            'laplacian': dict(gamma=1.0), 'chi2': dict(gamma=1.0),
            'sigmoid': dict(gamma=1.0, offset=1.0), 'hadamard': dict(alpha=3), 'linear': {}}


def needs(spec):
    """Requirements of a kernel on its samples, as keyword arguments of samples()."""
    kw = {}
    if spec['k'] == 'chi2':
        kw['nonneg'] = True
    if spec['k'] == 'hadamard' and spec.get('alpha', 3) < 0:
        kw['nonzero'] = True
    if spec.get('skip'):
        kw['ints'] = False
    return kw


def kernel_class(k):
    from kernelmethods import numeric_kernels as nk
    return {'linear': nk.LinearKernel, 'poly': nk.PolyKernel, 'gaussian': nk.GaussianKernel,
            'laplacian': nk.LaplacianKernel, 'chi2': nk.Chi2Kernel, 'sigmoid': nk.SigmoidKernel,
            'hadamard': nk.HadamardKernel}[k]


def custom_func(spec):
    func, pname = CUSTOM[spec['f']]
    params = {pname: spec['p']} if 'p' in spec else {}
    return func, params


def make_kernel(spec):
    """Kernel object of the code under test."""
    from kernelmethods.base import KernelFromCallable
    k = spec['k']
    if k == 'custom':
        func, params = custom_func(spec)
        if spec['how'] == 'class':
            return _subclass()(func, **params)
        if spec['how'] == 'lambda':
            return KernelFromCallable(lambda x, y, **p: func(x, y, **p), name=spec.get('name', spec['f']), **params)
        return KernelFromCallable(func, **params)
    params = {p: spec[p] for p in ('degree', 'gamma', 'b', 'sigma', 'offset', 'alpha')
              if p in spec}
    if spec.get('skip'):
        params['skip_input_checks'] = True
    return kernel_class(k)(**params)


def _eps(X, Y, d):
    base = max(float(np.finfo(a.dtype).eps) if a.dtype == np.float32 else 2.3e-16 for a in (X, Y))
    return LD(base) * (8 * d + 64), (LD('1e-290') if base < 1e-10 else LD('1e-30')), \
        (LD('1e300') if base < 1e-10 else LD('1e36'))


def ref_gram(spec, X, Y):
    """(values, tolerance) of the kernel between all rows of X and Y.

    Values come from the documented formula in extended precision; the tolerance covers any
    sensible order of evaluation in the precision of the inputs, and is infinite where the
    result may overflow."""
    X, Y = np.asarray(X), np.asarray(Y)
    d = X.shape[1]
    eps, tiny, cap = _eps(X, Y, d)
    k = spec['k']
    if k == 'custom':
        func, params = custom_func(spec)
        V = np.array([[func(x, y, **params) for y in Y] for x in X], dtype=LD)
        V = V.reshape(len(X), len(Y))
        return V, LD(1e-13) * (1 + np.abs(V))
    p = dict(DEFAULTS[k])
    p.update({q: spec[q] for q in p if q in spec})
    p = {q: (v if q == 'degree' else LD(v)) for q, v in p.items()}
    A, B = X.astype(LD), Y.astype(LD)
    A3, B3 = A[:, None, :], B[None, :, :]
    with np.errstate(all='ignore'):
        if k in ('linear', 'poly', 'sigmoid'):
            dot = (A3 * B3).sum(-1)
            mag = (np.abs(A3) * np.abs(B3)).sum(-1)
            if k == 'linear':
                V, T = dot, eps * mag + tiny
            elif k == 'poly':
                t = p['b'] + p['gamma'] * dot
                dt = eps * (np.abs(p['b']) + np.abs(p['gamma']) * mag)
                deg = p['degree']
                V = t ** deg
                T = deg * (np.abs(t) + dt) ** max(deg - 1, 0) * dt + eps * np.abs(V) + tiny
                if deg < 0 or deg != int(deg):  # defined for (clearly) positive values only
                    V = np.abs(t) ** LD(deg)
                    T = np.where(t > 1000 * dt, 2 * V * np.abs(deg) * dt / np.abs(t)
                                 + eps * (1 + abs(deg)) * V + tiny, np.inf)
            else:
                t = p['offset'] + p['gamma'] * dot
                V = np.tanh(t)
                T = eps * (np.abs(p['offset']) + np.abs(p['gamma']) * mag + 1) + tiny
        elif k == 'gaussian':
            e = LD(np.finfo('f8').eps)
            g = max(e, 1 / (2 * max(e, p['sigma']) ** 2))
            q = ((A3 - B3) ** 2).sum(-1)
            mag = (A3 ** 2 + B3 ** 2).sum(-1)
            V = np.exp(-g * q)
            T = V * np.expm1(np.minimum(g * eps * (q + mag), 500))
            if eps < 1e-10:  # expanding the square is fine unless it cancels badly
                T = np.minimum(T, V * np.expm1(np.minimum(g * eps * q, 500)) + LD(1e-6))
            T = T + eps * V * (1 + g * q) + tiny
        elif k == 'laplacian':
            q = np.abs(A3 - B3).sum(-1)
            V = np.exp(-p['gamma'] * q)
            T = V * np.expm1(np.minimum(p['gamma'] * eps * q, 500)) + eps * V + tiny
        elif k == 'chi2':
            s = A3 + B3
            q = np.where(s > 0, (A3 - B3) ** 2 / np.where(s > 0, s, 1), 0).sum(-1)
            V = np.exp(-p['gamma'] * q)
            T = V * np.expm1(np.minimum(p['gamma'] * eps * s.sum(-1), 500)) + eps * V + tiny
        else:
            a = p['alpha']
            pa, pb = np.abs(A3) ** a, np.abs(B3) ** a
            den = 2 * (pa + pb)
            V = np.where(den > 0, pa * pb / np.where(den > 0, den, 1), 0).sum(-1)
            T = eps * (1 + np.abs(a)) * V + tiny
        T = np.where(np.isfinite(V) & (np.abs(V) < cap), T, np.inf)
    return V, T


def norm_verdict(diags):
    """'ok', 'zero' (must be refused) or None (undecided by the property)."""
    d = np.concatenate([np.asarray(x, dtype='f8').ravel() for x in diags])
    if not np.isfinite(d).all():
        return None
    if (np.abs(d) < 1e-10).any():
        return 'zero' if (d >= -1e-10).all() else None
    if (d > 1e-6).all():
        return 'ok'
    return None


def norm_of(K, TK, dx, tdx, dy, tdy):
    """Cosine normalized values and their tolerance."""
    with np.errstate(all='ignore'):
        s = np.sqrt(np.outer(dx, dy).astype(LD))
        N = K / s
        rel = (tdx / dx)[:, None] + (tdy / dy)[None, :]
        n = LD(K.shape[0] + K.shape[1] + 16)
        T = TK / s * LD(1.3) + np.abs(N) * (rel + LD(4e-16) * n) + LD(1e-300)
        T = np.where(np.isfinite(N) & (rel < 0.2), T, np.inf)
    return N, T


def ref_normed(spec, X, Y=None):
    """(verdict, values, tolerance) of the cosine normalized kernel matrix."""
    Z = X if Y is None else Y
    K, T = ref_gram(spec, X, Z)
    dx, tdx = diag_of(spec, X)
    dy, tdy = (dx, tdx) if Y is None else diag_of(spec, Y)
    v = norm_verdict([dx, dy])
    if v != 'ok' or not (np.isfinite(tdx).all() and np.isfinite(tdy).all()):
        return (v if v == 'zero' else None), None, None
    N, TN = norm_of(K, T, dx, tdx, dy, tdy)
    return 'ok', N, TN


def diag_of(spec, X):
    vt = [ref_gram(spec, X[i:i + 1], X[i:i + 1]) for i in range(len(X))]
    return (np.array([v[0, 0] for v, _ in vt], dtype=LD),
            np.array([t[0, 0] for _, t in vt], dtype=LD))


# ---------------------------------------------------------------------------------------------
# comparisons

def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args))


def same(what, got, ref, tol, dense=True):
    """Element-wise |got - ref| <= tol; tol=inf accepts anything."""
    if dense and not isinstance(got, np.ndarray):
        raise Violation('{}: expected a dense array, got {}'.format(what, type(got).__name__))
    got = np.asarray(got)
    ref = np.asarray(ref)
    if got.shape != ref.shape:
        raise Violation('{}: shape {} instead of {}'.format(what, got.shape, ref.shape))
    if got.size == 0:
        return
    if got.dtype.kind not in 'fiub':
        raise Violation('{}: dtype {} is not real'.format(what, got.dtype))
    tol = np.broadcast_to(np.asarray(tol, dtype=LD), ref.shape)
    with np.errstate(all='ignore'):
        ok = (np.abs(got.astype(LD) - ref) <= tol) | np.isposinf(tol)
    if not ok.all():
        ix = tuple(int(v) for v in np.argwhere(~ok)[0])
        raise Violation('{}: entry {} is {!r}, expected {!r} (tolerance {:.3g}); {} of {} entries '
                        'differ'.format(what, ix, float(got[ix]), float(ref[ix]), float(tol[ix]),
                                        int((~ok).sum()), ok.size))


def raises(what, types, func, *args, **kw):
    """func must raise one of types; returns the exception."""
    try:
        out = func(*args, **kw)
    except types as exc:
        return exc
    except Exception as exc:
        raise Violation('{}: raised {} ({}) instead of {}'.format(
            what, type(exc).__name__, str(exc)[:200],
            '/'.join(t.__name__ for t in (types if isinstance(types, tuple) else (types,)))))
    raise Violation('{}: no exception, returned {}'.format(what, repr(out)[:200]))


def finite_json(v):
    """JSON-able encoding of a float that may be non-finite."""
    if isinstance(v, float) and not math.isfinite(v):
        return str(v)
    return v
