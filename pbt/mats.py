"""Generated square / rectangular real matrices."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g

KINDS = ('psd', 'sym', 'any', 'int', 'i1', 'u1', 'i2', 'f4', 'f2', 'const', 'rowcol', 'lowrank', 'sparse',
         'lit')


@st.composite
def mats(draw, n=None, m=None, kinds=KINDS, max_n=9, big_n=60, scales=(1.0, 1e-2, 1e2, 1e4)):
    n = draw(g.sizes(1, max_n, big_n, huge=1100)) if n is None else n
    m = n if m is None else m
    kind = draw(st.sampled_from(kinds))
    if kind == 'lit' and n * m > 16:
        kind = 'any'
    spec = dict(kind=kind, n=n, m=m, l=draw(st.sampled_from(g.LAYOUTS)))
    if kind == 'lit':
        spec['v'] = draw(st.lists(g.number(), min_size=n * m, max_size=n * m))
    else:
        spec.update(s=draw(g.seeds), sc=draw(st.sampled_from(scales)))
    return spec


def build(spec, layout=True):
    n, m, kind = spec['n'], spec['m'], spec['kind']
    if kind == 'lit':
        a = np.array(spec['v'], dtype='f8').reshape(n, m)
    else:
        r = np.random.RandomState(spec['s'])
        if kind == 'psd' and n == m:
            a = r.randn(n, max(1, n))
            a = a @ a.T
        elif kind == 'sym' and n == m:
            a = r.randn(n, n)
            a = a + a.T
        elif kind in ('int', 'i1', 'u1', 'i2'):
            a = r.randint(0 if kind == 'u1' else -100, 101, (n, m))
            if kind == 'i2':
                a = a * 300
        elif kind == 'const':
            a = np.full((n, m), float(r.randint(-3, 4)))
        elif kind == 'rowcol':
            a = r.randint(-8, 9, (n, 1)) / 4 + r.randint(-8, 9, (1, m)) / 4
        elif kind == 'lowrank':
            a = np.outer(r.randn(n), r.randn(m))
        elif kind == 'sparse':
            a = r.randn(n, m) * (r.rand(n, m) < 0.3)
        else:
            a = r.randn(n, m)
        a = a.astype('i8' if kind == 'int' else kind) if kind in ('int', 'i1', 'u1', 'i2') \
            else a * spec['sc']
        if kind in ('f4', 'f2'):
            a = np.clip(a, -6e4, 6e4).astype(kind)
    return g.lay(a, spec['l']) if layout else a


def eps_of(*arrays):
    return max(1.2e-7 if a.dtype == np.float32 else 2.3e-16 for a in arrays)
