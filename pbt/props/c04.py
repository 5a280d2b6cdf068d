"""Stateful, model-based: generated histories of attaching, indexing and reading every view; after
each step the view must equal the one derived from the reference Gram matrix of the samples of the
latest attachment only."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist


@st.composite
def cases(draw):
    k = draw(g.kernels())
    kw = g.needs(k)
    d = draw(g.sizes(1, 4))
    big = draw(st.integers(0, 12)) == 0
    nkw = dict(max_n=8, big_n=60) if big else dict(max_n=8)
    pool = draw(st.lists(g.samples(d=d, **nkw, **kw), min_size=1, max_size=3))
    idx = st.integers(0, len(pool) - 1)
    attach = st.one_of(idx.map(lambda i: ['attach', i]),
                       st.tuples(idx, idx).map(lambda t: ['attach2', t[0], t[1]]),
                       # new contents in an array used before, then attached to again
                       st.tuples(idx, st.sampled_from(('flip', 'same', 'roll'))).map(
                           lambda t: ['renew', t[0], t[1]]))
    view = st.sampled_from(hist.VIEWS).map(lambda v: ['view', v])
    sel = hist.selection().map(lambda s: ['sel', s])
    ops = [draw(attach)]
    ops += draw(st.lists(hist.weighted(view=(6, view), sel=(3, sel), attach=(2, attach)),
                         min_size=3, max_size=14))
    return dict(kernel=k, pool=pool, normalized=draw(st.booleans()), ops=ops)


def run(case, ctx):
    from kernelmethods.base import KernelMatrix
    pool = [g.build(s) for s in case['pool']]
    km = KernelMatrix(g.make_kernel(case['kernel']), normalized=case['normalized'])
    model, seen, attached, compared = None, {}, 0, 0
    for op in case['ops']:
        if op[0] == 'attach':
            km.attach_to(pool[op[1]])
            key = (op[1],)
        elif op[0] == 'attach2':
            km.attach_to(pool[op[1]], sample_two=pool[op[2]], name_two='two')
            key = (op[1], op[2])
        elif op[0] == 'renew':
            i, A = op[1], pool[op[1]]
            if A.flags.writeable:
                A[...] = {'flip': A[::-1], 'same': A[-1:], 'roll': np.roll(A, 1, 0)}[op[2]].copy()
                seen = {k: v for k, v in seen.items() if i not in k}
            km.attach_to(A)
            key = (i,)
            ctx.label('array reused')
        if op[0] in ('attach', 'attach2', 'renew'):
            if key not in seen:
                seen[key] = hist.spec_model(case['kernel'], *[pool[i] for i in key])
            model = seen[key]
            attached += 1
            ctx.label('two samples' if model.two else 'one sample')
            continue
        if op[0] == 'view':
            try:
                hist.apply_view(km, op[1], model, case['normalized'])
            except hist.Refused:
                ctx.label('normalization refused')
            ctx.label(op[1])
        else:
            hist.apply_selection(km, op[1], model)
            ctx.label('sel')
        compared += 1
    # whatever happened before, the final state is right in every view
    for v in hist.VIEWS:
        try:
            hist.apply_view(km, v, model, case['normalized'])
        except hist.Refused:
            pass
    ctx.label('reattached' if attached > 1 else 'attached once')
    ctx.interesting(compared >= 2 and max(model.shape) > 1)


SUBS = [Sub('histories', cases, run, n=10000,
            rule='at least two views or selections of a matrix larger than 1x1 in the history')]
