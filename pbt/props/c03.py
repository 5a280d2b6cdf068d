"""Oracle: reference Gram matrix restricted to the distinct selected rows and columns in
ascending order; sequences of selections on one object, one and two samples."""
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist


@st.composite
def cases(draw):
    k = draw(g.kernels())
    kw = g.needs(k)
    big = draw(st.integers(0, 3)) == 0
    d = draw(g.sizes(1, 5))
    nkw = dict(max_n=12, big_n=300) if big else dict(max_n=10)
    x = draw(g.samples(d=d, **nkw, **kw))
    how = draw(st.sampled_from(('one', 'one', 'two', 'two', 'same', 'copy')))
    y = None
    if how == 'two':
        n2 = x['n'] if draw(st.integers(0, 3)) == 0 else None
        y = draw(g.samples(n=n2, d=d, **nkw, **kw))
    sels = draw(st.lists(hist.selection(), min_size=1, max_size=4))
    return dict(kernel=k, x=x, y=y, how=how, normalized=draw(st.booleans()), sels=sels,
                extra=draw(st.sampled_from((0, 0, 0, 1, 2))), full_first=draw(st.integers(0, 5)) == 0)


def total(case, shape):
    return sum((len(r) or 1) * (len(c) or 1)
               for _, r, c in (hist.resolve_selection(s, shape) for s in case['sels']))


def run(case, ctx):
    from kernelmethods.base import KernelMatrix
    X = g.build(case['x'])
    Y = {'one': lambda: None, 'two': lambda: g.build(case['y']), 'same': lambda: X,
         'copy': lambda: X.copy()}[case['how']]()
    model = hist.spec_model(case['kernel'], X, Y)
    if total(case, model.shape) > 25000:
        return
    km = KernelMatrix(g.make_kernel(case['kernel']), normalized=case['normalized'])
    # trailing singleton dimensions do not matter
    A, B = (a if a is None else a.reshape(a.shape + (1,) * case['extra']) for a in (X, Y))
    if Y is None:
        km.attach_to(A)
    else:
        km.attach_to(A, sample_two=A if Y is X else B)
    if case['full_first'] and model.shape[0] * model.shape[1] < 900 and not case['normalized']:
        hist.apply_view(km, 'full', model, False)
    done = 0
    for sel in case['sels']:
        done += hist.apply_selection(km, sel, model)
        ctx.label('linear' if 'lin' in sel else 'pair')
    ctx.label(case['how'], case['kernel']['k'], 'normalized' if case['normalized'] else 'plain',
              'square' if model.shape[0] == model.shape[1] else 'rectangular')
    ctx.interesting(done > 0 and max(model.shape) > 1)


SUBS = [Sub('selections', cases, run, n=8000,
            rule='at least one non-empty selection from a matrix larger than 1x1 was compared')]
