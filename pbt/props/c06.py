"""Fault injection: the kernel raises at generated evaluations, attachments with invalid samples
are rejected and zero diagonals refuse normalization, anywhere in a generated history; every
operation must either raise (exactly when something failed) or agree with the model of the last
successful attachment, and everything must be right once the faults are over."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, Violation
from pbt import gens as g
from pbt import hist, idk

BAD = ('1d', '3d', 'dim', 'second1d', 'second3d', 'list', 'none', 'secondlist', 'scalar')


@st.composite
def cases(draw):
    ns = draw(st.lists(g.sizes(1, 6, 20), min_size=1, max_size=3))
    idx = st.integers(0, len(ns) - 1)
    attach = st.one_of(idx.map(lambda i: ['attach', i]),
                       st.tuples(idx, idx).map(lambda t: ['attach2', t[0], t[1]]))
    bad = st.tuples(idx, st.sampled_from(BAD)).map(lambda t: ['bad', t[0], t[1]])
    view = st.sampled_from(hist.VIEWS).map(lambda v: ['view', v])
    sel = hist.selection().map(lambda s: ['sel', s])
    ops = [draw(attach)]
    ops += draw(st.lists(hist.weighted(view=(8, view), sel=(4, sel), bad=(2, bad),
                                       attach=(2, attach)), min_size=3, max_size=14))
    start = draw(st.lists(st.one_of(st.integers(0, 12), st.integers(0, 60)), max_size=4))
    faults = sorted({s + k for s in start for k in range(draw(st.integers(1, 3)))})
    zero = draw(st.lists(st.integers(0, 5), max_size=2)) if draw(st.integers(0, 3)) == 0 else []
    return dict(ns=ns, normalized=draw(st.booleans()), ops=ops, faults=faults,
                kind=draw(st.sampled_from(sorted(idk.FAULTS))), zero=zero)


def bad_attach(km, sample, how):
    n = len(sample)
    args = {'1d': (sample[:, 0],), '3d': (np.zeros((n, 2, 2)),), 'list': (sample.tolist(),),
            'none': (None,), 'scalar': (3.0,)}
    two = {'dim': np.zeros((n + 1, 3)), 'second1d': np.zeros(n), 'second3d': np.zeros((2, 2, 2)),
           'secondlist': [[1.0, 2.0]]}
    if how in args:
        g.raises('attach_to({})'.format(how), Exception, km.attach_to, *args[how],
                 name_one='bad')
    else:
        g.raises('attach_to(sample, {})'.format(how), Exception, km.attach_to, sample + 500,
                 name_one='bad', sample_two=two[how], name_two='bad2')


def run(case, ctx):
    from kernelmethods.base import KernelMatrix
    K = idk.IdKernel(case['faults'], case['kind'], case['zero'])
    km = KernelMatrix(K.kernel(), normalized=case['normalized'])
    firsts = [idk.sample(100 * i, n) for i, n in enumerate(case['ns'])]
    seconds = [idk.sample(1000 + 100 * i, n) for i, n in enumerate(case['ns'])]
    model, failures, rejected, shown = None, 0, 0, None
    for op in case['ops']:
        if op[0] in ('attach', 'attach2'):
            if op[0] == 'attach':
                km.attach_to(firsts[op[1]])
                model = K.model(firsts[op[1]])
            else:
                km.attach_to(firsts[op[1]], sample_two=seconds[op[2]], name_two='second')
                model = K.model(firsts[op[1]], seconds[op[2]])
            km.set_attr('tag', failures)
            shown = str(km), failures
            continue
        if op[0] == 'bad':
            calls = K.count
            bad_attach(km, firsts[op[1]], op[2])
            rejected += 1
            hist.check_sizes(km, model)
            g.require(str(km) == shown[0], 'rejected attachment changed {!r} to {!r}', shown[0],
                      str(km))
            g.require(km.get_attr('tag', 'lost') == shown[1],
                      'rejected attachment changed attributes: {!r}', km.attributes())
            g.require(K.count == calls, 'rejected attachment evaluated the kernel')
            ctx.label('bad:' + op[2])
            continue
        before = K.raised
        try:
            if op[0] == 'view':
                hist.apply_view(km, op[1], model, case['normalized'])
            else:
                hist.apply_selection(km, op[1], model)
        except hist.Refused:
            rejected += 1
            ctx.label('normalization refused')
            continue
        except Violation:
            raise
        except Exception:
            if K.raised == before:
                raise
            failed = True
        else:
            failed = False
        if K.raised > before:
            g.require(failed or op[1] in ('diagonal', 'centered', 'center') and model.two,
                      '{} returned although the kernel failed during it', op)
            failures += 1
            ctx.label('fault in ' + (op[1] if op[0] == 'view' else 'selection'))
    K.faults = set()  # the cause is gone
    for v in hist.VIEWS:
        try:
            hist.apply_view(km, v, model, case['normalized'])
        except hist.Refused:
            pass
    hist.apply_selection(km, {'r': {'s': [None, None, None]}, 'c': {'s': [None, None, None]}},
                         model)
    ctx.label('failures' if failures else 'no failure')
    ctx.interesting(failures + rejected > 0)


SUBS = [Sub('faults', cases, run, n=10000,
            rule='at least one kernel failure, rejected attachment or refused normalization')]
