"""Reference model: each kernel formula re-implemented in extended precision with a rigorous
rounding bound; metamorphic: swapping arguments, changing container, dtype or layout."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g

CONTAINERS = ('arr', 'arr', 'list', 'tuple', 'col')


@st.composite
def pair(draw):
    k = draw(g.kernels(g.NUMERIC, wide=True))
    kw = g.needs(k)
    d = draw(st.one_of(g.sizes(1, 8, 40), g.sizes(1, 8, 300)))
    x = draw(g.samples(n=1, d=d, wide=True, **kw))
    rel = draw(st.sampled_from(('free', 'free', 'free', 'same', 'neg', 'near')))
    if rel == 'neg' and kw.get('nonneg'):
        rel = 'same'
    y = draw(g.samples(n=1, d=d, wide=True, **kw)) if rel in ('free', 'near') else None
    cx, cy = ('arr', 'arr') if k.get('skip') else \
        (draw(st.sampled_from(CONTAINERS)), draw(st.sampled_from(CONTAINERS)))
    return dict(kernel=k, x=x, y=y, rel=rel, cx=cx, cy=cy)


def vector(spec):
    return g.build(spec)[0] if spec.get('l') != 'ro' else g.lay(g.build(spec)[0], 'ro')


def contain(v, how):
    if how == 'list':
        return v.tolist()
    if how == 'tuple':
        return tuple(v.tolist())
    if how == 'col':
        return v.reshape(-1, 1)
    return v


def vectors(case):
    x = vector(case['x'])
    if case['rel'] in ('free', 'near'):
        y = vector(case['y'])
        if case['rel'] == 'near':  # differ in one feature only
            z = x.copy()
            last = abs(float(y[-1])) if case['kernel']['k'] == 'chi2' else float(y[-1])
            if z.dtype.kind in 'iu':
                info = np.iinfo(z.dtype)
                last = int(min(max(last, info.min), info.max))
            if last != 0:
                z[-1] = last
            y = z
    elif case['rel'] == 'neg' and x.dtype.kind != 'u':
        y = -x
    else:
        y = x.copy()
    return x, y


def scalar(what, val):
    g.require(np.ndim(val) == 0 and not isinstance(val, (str, bytes, bool)) and
              np.isrealobj(val) and np.asarray(val).dtype.kind in 'fiu',
              '{}: not a real scalar: {!r}', what, val)
    return np.array([[val]])


def run(case, ctx):
    k = g.make_kernel(case['kernel'])
    x, y = vectors(case)
    V, T = g.ref_gram(case['kernel'], x[None, :], y[None, :])
    cx, cy = contain(x, case['cx']), contain(y, case['cy'])
    got = k(cx, cy)
    g.same('k(x, y)', scalar('k(x, y)', got), V, T)
    back = k(cy, cx)
    g.same('k(y, x)', scalar('k(y, x)', back), V, T)
    # evaluating again, and on plain float arrays, gives the same
    g.same('k(x, y) again', scalar('k', k(cx, cy)), V, T)
    g.same('k on float64 arrays', scalar('k', k(x.astype('f8'), y.astype('f8'))), V, T)
    ctx.label(case['kernel']['k'], 'rel:' + case['rel'], x.dtype.str, case['cx'])
    ctx.interesting(bool(np.isfinite(T).all()) and bool(T[0, 0] < 1e-3 * abs(V[0, 0])))


@st.composite
def scaled(draw):
    """Vectors of any magnitude, or far from the origin, with parameters to match."""
    k = draw(g.kernels(g.NUMERIC, wide=True))
    d = draw(st.integers(1, 6))
    val = st.integers(0 if k['k'] == 'chi2' else -16, 16)
    far = k['k'] in ('gaussian', 'laplacian') and draw(st.booleans())
    return dict(kernel=k, x=draw(st.lists(val, min_size=d, max_size=d)),
                y=draw(st.lists(val, min_size=d, max_size=d)),
                e=draw(st.integers(-30, 20)), far=draw(st.integers(12, 27)) if far else None)


def run_scaled(case, ctx):
    spec = dict(case['kernel'])
    kind = spec['k']
    s = 2.0 ** case['e']
    p = dict(g.DEFAULTS[kind])
    p.update({q: spec[q] for q in p if q in spec})
    if kind == 'gaussian':
        spec['sigma'] = p['sigma'] * s
    elif kind in ('laplacian', 'chi2'):
        spec['gamma'] = p['gamma'] / s
    elif kind in ('poly', 'sigmoid'):
        spec['gamma'] = p['gamma'] / s / s
    x, y = np.array(case['x']) / 8.0, np.array(case['y']) / 8.0
    if case['far'] is not None:  # exactly representable, and so are the differences
        x, y = x + 2.0 ** case['far'], y + 2.0 ** case['far']
    if kind == 'hadamard' and p['alpha'] < 0:
        x[x == 0], y[y == 0] = 1.0, 1.0
    x, y = x * s, y * s
    V, T = g.ref_gram(spec, x[None, :], y[None, :])
    k = g.make_kernel(spec)
    g.same('k(x, y)', scalar('k(x, y)', k(x, y)), V, T)
    g.same('k(y, x)', scalar('k(y, x)', k(y, x)), V, T)
    ctx.label(kind, 'far' if case['far'] is not None else 'scale 2^%d' % (case['e'] // 10 * 10))
    ctx.interesting(bool(np.isfinite(T).all()) and bool(T[0, 0] <= 1e-3 * abs(V[0, 0])))


SUBS = [
    Sub('scales', scaled, run_scaled, n=8000,
        rule='the value is known to better than 0.1% (no overflow or cancellation)'),
    Sub('formula', pair, run, n=24000,
        rule='the value is known to better than 0.1% (no overflow or cancellation)'),
]
