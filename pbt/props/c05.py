"""Stateful: a kernel over identifiable rows records every evaluation it receives; after each
operation of a generated history, the multiset of evaluated pairs since the last attachment is
compared with the model (at most once per pair; only the pairs an operation consists of)."""
import collections

from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist, idk

QUIET = ('str', 'repr', 'sizes', 'set_attr', 'get_attr', 'attributes', 'in_set')
WHOLE = ('combo', 'product')
READ = {'full': lambda km: km.full, 'sparse': lambda km: km.full_sparse,
        'normed': lambda km: km.normed_km, 'normalize': lambda km: km.normalize(),
        'centered': lambda km: km.centered, 'center': lambda km: km.center(),
        'frob': lambda km: km.frob_norm, 'diagonal': lambda km: km.diagonal()}
ODD = {'nan': float('nan'), 'inf': float('inf'), 'none': None}


@st.composite
def cases(draw):
    ns = draw(st.lists(g.sizes(1, 7, 40), min_size=1, max_size=3))
    idx = st.integers(0, len(ns) - 1)
    attach = st.one_of(idx.map(lambda i: ['attach', i]),
                       st.tuples(idx, idx).map(lambda t: ['attach2', t[0], t[1]]))
    view = st.sampled_from(hist.VIEWS).map(lambda v: ['view', v])
    quiet = st.sampled_from(QUIET).map(lambda v: ['quiet', v])
    whole = st.sampled_from(WHOLE).map(lambda v: ['whole', v])
    sel = hist.selection().map(lambda s: ['sel', s])
    ops = [draw(attach)]
    ops += draw(st.lists(hist.weighted(sel=(6, sel), view=(6, view), quiet=(2, quiet),
                                       whole=(2, whole), attach=(1, attach)),
                         min_size=3, max_size=14))
    return dict(ns=ns, normalized=draw(st.booleans()), ops=ops,
                odd=draw(st.sampled_from(('none', 'none', 'none', 'nan', 'inf'))),
                dtype=draw(st.sampled_from(('f8', 'i8', 'f4'))))


def unordered(p):
    return p if p[0] <= p[1] else (p[1], p[0])


def run(case, ctx):
    from kernelmethods.base import KernelMatrix, KernelSet, ProductKernel
    from kernelmethods.operations import linear_combination
    K = idk.IdKernel(odd=ODD[case['odd']])
    km = KernelMatrix(K.kernel(), normalized=case['normalized'])
    # first and second samples have disjoint ids, so that each evaluation is attributable
    firsts = [idk.sample(100 * i, n, case['dtype']) for i, n in enumerate(case['ns'])]
    seconds = [idk.sample(1000 + 100 * i, n, case['dtype']) for i, n in enumerate(case['ns'])]
    counts, model, partial = None, None, 0

    def ids(rows, second=False):
        src = model.Y if (second and model.two) else model.X
        return [int(src[i, 0]) for i in rows]

    for op in case['ops']:
        before = len(K.calls)
        allowed = None  # None: any pair of the matrix
        if op[0] == 'attach':
            km.attach_to(firsts[op[1]])
            model = K.model(firsts[op[1]])
            counts, allowed = collections.Counter(), set()
        elif op[0] == 'attach2':
            km.attach_to(firsts[op[1]], sample_two=seconds[op[2]], name_two='second')
            model = K.model(firsts[op[1]], seconds[op[2]])
            counts, allowed = collections.Counter(), set()
        elif op[0] == 'view':
            if case['odd'] == 'none' or op[1] not in READ:
                hist.apply_view(km, op[1], model, case['normalized'])
            elif not (model.two and op[1] in ('centered', 'center', 'diagonal')):
                READ[op[1]](km)
            if op[1] == 'diagonal':
                allowed = {(i, i) for i in ids(range(model.shape[0]))}
            elif op[1] == 'sizes':
                allowed = set()
        elif op[0] == 'sel':
            expr, rows, cols = hist.resolve_selection(op[1], model.shape)
            if case['odd'] == 'none':
                hist.apply_selection(km, op[1], model)
            elif len(rows) and len(cols):
                km[expr]
            allowed = {unordered((a, b)) for a in ids(rows) for b in ids(cols, True)}
            partial += 1
        elif op[0] == 'quiet':
            allowed = set()
            if op[1] == 'str':
                str(km)
            elif op[1] == 'repr':
                repr(km)
            elif op[1] == 'sizes':
                hist.check_sizes(km, model)
            elif op[1] == 'set_attr':
                km.set_attr('a', 1)
            elif op[1] == 'get_attr':
                km.get_attr('a')
            elif op[1] == 'attributes':
                km.attributes()
            else:
                ks = KernelSet([km])
                len(ks), str(ks), ks[0], list(ks), ks.take([0]), ks.get_kernel_funcs([0])
        else:
            ks = KernelSet([km, km])
            if op[1] == 'combo' or model.two:
                linear_combination(ks, [0.5, 2.0])
            else:
                ProductKernel(ks).fit()
        new = [unordered(p) for p in K.calls[before:]]
        counts.update(new)
        xs, ys = set(ids(range(model.shape[0]))), set(ids(range(model.shape[1]), True))
        for p in new:
            what = 'after {}: pair {}'.format(op, p)
            if model.two and p[0] == p[1]:
                # only needed for normalizing
                norm_op = op[0] == 'whole' and case['normalized'] or op[0] == 'view' and (
                    op[1] in ('normed', 'normalize')
                    or op[1] in ('full', 'sparse') and case['normalized'])
                g.require(norm_op, '{} evaluated although not needed', what)
                g.require(p[0] in xs | ys, '{} is not part of the samples', what)
            else:
                g.require((p[0] in xs and p[1] in ys) or (p[1] in xs and p[0] in ys),
                          '{} is not part of the matrix', what)
                g.require(allowed is None or p in allowed,
                          '{} evaluated although not part of what was accessed', what)
            g.require(counts[p] <= 1, '{} evaluated {} times', what, counts[p])
        ctx.label(op[0] + ':' + str(op[1]) if op[0] in ('view', 'quiet', 'whole') else op[0])
    if case['odd'] != 'none':
        ctx.label('some values ' + case['odd'])
    ctx.label('two' if model.two else 'one')
    ctx.interesting(len(case['ops']) >= 3 and sum(counts.values()) > 1)


SUBS = [Sub('counting', cases, run, n=10000,
            rule='three or more operations, with more than one kernel evaluation since the last '
                 'attachment')]
