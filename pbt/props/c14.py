"""Oracle: element-wise (weighted) sum, product and mean of the members' reference matrices in
extended precision; metamorphic: repeated fitting, earlier accesses, unchanged members."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist
from pbt.props import c21

LD = np.longdouble
KINDS = ('sum', 'sumw', 'product', 'average', 'weighted', 'lincomb', 'lincombn')
TAME = ('linear', 'poly', 'gaussian', 'laplacian', 'chi2', 'custom', 'hadamard', 'sigmoid')


@st.composite
def cases(draw, two=False):
    n = draw(g.sizes(1, 6, 25))
    d = draw(g.sizes(1, 4))
    size = draw(g.sizes(2, 5, 12, huge=140))
    members = []
    for _ in range(size):
        if not two and draw(st.integers(0, 3)) == 0:
            members.append(dict(pre=draw(g.seeds), t=draw(st.sampled_from(('f8', 'i8', 'f4', 'f2', 'i1', 'u1', 'i2')))))
        else:
            members.append(dict(kernel=draw(g.kernels(TAME, skip=False)),
                                normalized=draw(st.booleans()),
                                first=draw(st.sampled_from(('none', 'none', 'full', 'sparse', 'sel',
                                                            'centered', 'normed', 'frob')))))
    x = draw(g.samples(n=n, d=d, nonneg=True, f32=False, scale=False))
    c = dict(n=n, members=members, x=x,
             kinds=draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=3)),
             weights=draw(st.lists(st.one_of(g.eighths, st.integers(-3, 3)),
                                   min_size=size, max_size=size)),
             wt=draw(st.sampled_from(('list', 'tuple', 'arr', 'col', 'f4', 'f2', 'i1', 'i2', 'i8'))),
             before=draw(st.sampled_from(('none', 'w', 'ones', 'other', 'bad'))),
             dup=draw(st.integers(0, 5)) == 0,
             grow=draw(st.integers(0, size - 2)) if draw(st.integers(0, 3)) == 0 else 0)
    if two:
        c['y'] = draw(g.samples(n=None, d=d, nonneg=True, f32=False, scale=False, max_n=7))
        c['kinds'] = [draw(st.sampled_from(('lincomb', 'lincombn')))]
    return c


def wrap(w, how):
    return {'list': lambda: list(w), 'tuple': lambda: tuple(w), 'arr': lambda: np.array(w),
            'col': lambda: np.array(w).reshape(-1, 1), 'f4': lambda: np.array(w, 'f4')}.get(how, lambda: np.array(w, how))()


def out_of_range(vals):
    """Whether some partial product, in any order, could leave the range of double precision."""
    mags = [np.abs(v[v != 0]) for v in vals]
    high = sum(max(0.0, float(np.log10(m.max()))) for m in mags if m.size)
    low = sum(min(0.0, float(np.log10(m.min()))) for m in mags if m.size)
    return high > 290 or low < -290


def make_members(case, X, Y):
    """(objects, reference values, tolerances); None when some matrix is not usable."""
    from kernelmethods.base import KernelMatrix, KernelMatrixPrecomputed
    objs, vals, tols = [], [], []
    for m in case['members']:
        if 'pre' in m:
            a = np.random.RandomState(m['pre']).randint(-20, 21, (case['n'], case['n']))
            a = a + a.T
            if m['pre'] % 2:  # filling the range of the narrow types
                a = a * {'i1': 3, 'u1': 3, 'i2': 800, 'f2': 1600}.get(m['t'], 1)
            a = (np.abs(a) if m['t'] == 'u1' else a).astype(m['t'])
            objs.append(KernelMatrixPrecomputed(c21.matrix(a) if m['pre'] % 5 == 1 else a))
            vals.append(a.astype(LD))
            tols.append(np.zeros(a.shape, LD))
            continue
        model = hist.spec_model(m['kernel'], X, Y)
        if m['normalized']:
            v, K, T = model.norm
            if v != 'ok':
                return None
        else:
            K, T = model.K
        if not np.isfinite(T).all():
            return None
        km = KernelMatrix(g.make_kernel(m['kernel']), normalized=m['normalized'])
        if Y is None:
            km.attach_to(X)
        else:
            km.attach_to(X, sample_two=Y, name_two='Y')
        if m['first'] == 'sel':
            km[0, :]
        elif m['first'] != 'none':
            try:
                hist.apply_view(km, m['first'], model, m['normalized'])
            except hist.Refused:
                pass
        objs.append(km)
        vals.append(K)
        tols.append(T)
    return objs, vals, tols


def run(case, ctx):
    from kernelmethods import base
    from kernelmethods.operations import linear_combination
    X = g.build(case['x'])
    Y = g.build(case['y']) if 'y' in case else None
    made = make_members(case, X, Y)
    if made is None:
        ctx.label('not normalizable')
        return
    objs, vals, tols = made
    if case['dup']:
        objs[-1], vals[-1], tols[-1] = objs[0], vals[0], tols[0]
    before = [np.array(o.full) for o in objs] if Y is None else None
    if case['wt'][0] == 'i':
        case = dict(case, weights=[int(v) for v in case['weights']])
    w = [LD(v) for v in case['weights']]
    mag = [np.abs(v) for v in vals]

    def lin(ws):
        R = sum(a * v for a, v in zip(ws, vals))
        T = sum(abs(a) * (t + LD(1e-15) * (len(ws) + 4) * m) for a, t, m in zip(ws, tols, mag))
        return R, T + LD(1e-300)

    compared = 0
    for kind in case['kinds']:
        size = len(objs)
        # some matrices may join the set after the composite was made, before it is fitted
        late = case['grow'] if kind in ('sum', 'sumw', 'product', 'average') else 0
        ks = base.KernelSet(objs[:size - late])
        wobj = wrap(case['weights'], case['wt'])
        wsaved = np.array(wobj)
        if kind in ('lincomb', 'lincombn'):
            total = sum(w)
            if kind == 'lincomb':
                R, T = lin(w)
                out = linear_combination(ks, wobj)
            elif abs(total) < 1e-10:
                g.raises('normalizing weights with zero sum', Exception, linear_combination, ks,
                         wobj, norm_weights=True)
                ctx.label('zero sum')
                continue
            else:
                R, T = lin([v / total for v in w])
                T = T * 4
                if case['wt'] in ('f4', 'f2'):
                    T = T + LD(1e-6) * sum(abs(v / total) * m for v, m in zip(w, mag))
                out = linear_combination(ks, wobj, norm_weights=True)
            g.same(kind, out, R, T)
        else:
            if kind == 'weighted':
                comp = base.WeightedAverageKernel(ks, wobj, name='c')
            else:
                comp = {'sum': base.SumKernel, 'sumw': base.SumKernel,
                        'product': base.ProductKernel, 'average': base.AverageKernel}[kind](ks)
            for o in objs[size - late:]:
                ks.append(o)
            ctx.label('grown' if late else 'fixed')
            g.raises('result before fitting', Exception, lambda: comp.full)
            g.raises('result before fitting', Exception, lambda: comp.composite_KM)
            if kind == 'product' and out_of_range(vals):
                ctx.label('product out of range')
                continue
            if kind == 'product':
                R = np.ones(vals[0].shape, LD)
                rel = np.zeros(R.shape, LD)
                hi = np.ones(R.shape, LD)
                for v, t in zip(vals, tols):
                    R = R * v
                    hi = hi * (np.abs(v) + t)
                T = hi - np.abs(R) + LD(1e-15) * (size + 4) * np.abs(R) + LD(1e-300)
            elif kind == 'average':
                R, T = lin([LD(1) / size] * size)
            elif kind == 'sum':
                R, T = lin([LD(1)] * size)
            else:
                R, T = lin(w)
            for again in range(2):
                if kind in ('sum', 'sumw') and again == (case['before'] == 'other'):
                    # any earlier fit is replaced by the fit below
                    how = case['before']
                    if how == 'bad':
                        g.raises('too many weights', Exception, comp.fit, [0.5] * (size + 1))
                    elif how != 'none':
                        comp.fit({'w': wobj, 'ones': np.ones(size),
                                  'other': np.arange(size) + 2.0}[how])
                if kind == 'sumw':
                    comp.fit(wobj)
                else:
                    comp.fit()
                g.same(kind, comp.full, R, T)
                g.same(kind + ' composite_KM', comp.composite_KM, R, T)
            g.require(comp.num_samples == case['n'], 'num_samples {!r}', comp.num_samples)
        g.require(np.array_equal(np.array(wobj), wsaved), 'weights were modified')
        g.require(len(ks) == size and all(a is b for a, b in zip(ks, objs)), 'the set was changed')
        compared += 1
        ctx.label(kind)
    if before is not None:
        for i, (o, b) in enumerate(zip(objs, before)):
            g.require(np.array_equal(o.full, b), 'member {} was changed', i)
    ctx.interesting(compared > 0 and vals[0].size > 1)


@st.composite
def refusals(draw):
    return dict(n=draw(g.sizes(1, 6)), size=draw(g.sizes(2, 4, 12)), off=draw(
        st.sampled_from((1, -1, 2, -2))), s=draw(g.seeds),
        bad=draw(st.sampled_from(('sumw', 'weighted', 'lincomb', 'small0', 'small1', 'notset',
                                  'unattached', 'zerosum'))),
        kind=draw(st.sampled_from(('sum', 'product', 'average', 'weighted'))),
        norm=draw(st.booleans()))


def run_refuse(case, ctx):
    from kernelmethods import base
    from kernelmethods.operations import linear_combination
    n, size, bad = case['n'], case['size'], case['bad']
    r = np.random.RandomState(case['s'])
    ms = []
    for _ in range(size):
        a = r.rand(n, n)
        ms.append(a + a.T)
    ks = base.KernelSet(ms)
    wrong = max(0, size + case['off'])
    w = (r.rand(wrong) + 0.1).tolist()
    cls = {'sum': base.SumKernel, 'product': base.ProductKernel, 'average': base.AverageKernel,
           'weighted': base.WeightedAverageKernel}[case['kind']]

    def make(arg, count):
        return cls(arg, [0.5] * count) if case['kind'] == 'weighted' else cls(arg)

    if bad == 'sumw':
        c = base.SumKernel(ks)
        g.raises('{} weights for {}'.format(wrong, size), Exception, c.fit, w)
        g.raises('result after a refused fit', Exception, lambda: c.full)
    elif bad == 'weighted':
        g.raises('{} weights for {}'.format(wrong, size), Exception, base.WeightedAverageKernel,
                 ks, w)
    elif bad == 'lincomb':
        g.raises('{} weights for {}'.format(wrong, size), Exception, linear_combination, ks, w,
                 norm_weights=case['norm'])
    elif bad == 'zerosum':
        z = np.append(r.randint(1, 9, size - 1), 0)
        z[-1] = -z[:-1].sum()
        g.raises('zero sum', Exception, linear_combination, ks, z / 4, norm_weights=True)
    elif bad == 'small0':
        g.raises('empty set', Exception, make, base.KernelSet(num_samples=n), 0)
    elif bad == 'small1':
        g.raises('set of one', Exception, make, base.KernelSet(ms[:1]), 1)
    elif bad == 'notset':
        g.raises('not a set', Exception, make, ms, size)
    else:
        un = base.KernelSet([base.KernelMatrix(g.make_kernel({'k': 'linear'}))
                             for _ in range(size)])
        g.raises('unattached set', Exception, make, un, size)
    ctx.label(bad)
    ctx.interesting()


@st.composite
def failing(draw):
    size = draw(g.sizes(2, 5))
    return dict(n=draw(g.sizes(1, 6, 20)), size=size, at=draw(st.integers(0, size - 1)),
                how=draw(st.sampled_from(('norm', 'kernel', 'shape'))),
                kind=draw(st.sampled_from(('sum', 'sumw', 'product', 'average', 'weighted'))),
                first=draw(st.sampled_from((True, True, False))), back=draw(st.booleans()),
                weights=draw(st.lists(g.eighths, min_size=size, max_size=size)), s=draw(g.seeds))


def run_failing(case, ctx):
    """A fit that fails, as one of the matrices can not be computed, leaves no partial result."""
    from kernelmethods import base
    from kernelmethods.numeric_kernels import LinearKernel, PolyKernel
    n, size, kind = case['n'], case['size'], case['kind']
    case = dict(case, weights=[v or 1.5 for v in case['weights']])
    r = np.random.RandomState(case['s'])
    X = r.randint(1, 6, (n, 2)).astype('f8')
    broken = X.copy()
    broken[case['s'] % n] = 0
    fail = []

    def odd(x, y):
        if fail:
            raise RuntimeError('not available')
        return float(x.dot(y)) + 1

    kms = []
    for i in range(size):
        if i != case['at']:
            k = base.KernelMatrix(PolyKernel(degree=1 + i % 2), normalized=False)
        elif case['how'] == 'kernel':
            k = base.KernelMatrix(base.KernelFromCallable(odd), normalized=False)
        else:
            k = base.KernelMatrix(LinearKernel(), normalized=case['how'] == 'norm')
        k.attach_to(X)
        kms.append(k)
    ks = base.KernelSet(kms)
    if kind == 'weighted':
        comp = base.WeightedAverageKernel(ks, case['weights'])
    else:
        comp = {'sum': base.SumKernel, 'sumw': base.SumKernel, 'product': base.ProductKernel,
                'average': base.AverageKernel}[kind](ks)

    def fit():
        comp.fit(case['weights']) if kind == 'sumw' else comp.fit()

    def expected(S):
        out = None
        for i, w in enumerate(case['weights']):
            D = S.dot(S.T)
            K = (D + 1) ** (1 + i % 2) if i != case['at'] else \
                D + 1 if case['how'] == 'kernel' else D if case['how'] == 'shape' else \
                D / np.sqrt(np.outer(D.diagonal(), D.diagonal()))
            c = {'sumw': w, 'weighted': w, 'average': 1 / size}.get(kind, 1)
            out = c * K if out is None else out * K if kind == 'product' else out + c * K
        return out

    def check(what, R):
        g.same(what, comp.full, R, 1e-9 * (1 + np.abs(R) + np.abs(expected(X))))

    earlier = None
    if case['first']:
        fit()
        earlier = expected(X)
        check('first fit', earlier)
    if case['how'] == 'norm':
        ks.attach_to(broken)
    elif case['how'] == 'kernel':
        fail.append(1)
        ks.attach_to(X[::-1].copy())
    else:
        kms[case['at']].attach_to(np.vstack([X, X, X]))
        if n == 1:
            ctx.label('broadcasts')
            return
    g.raises('fit', Exception, fit)
    try:
        got = np.array(comp.full)
    except Exception:
        ctx.label('no result')
    else:
        g.require(earlier is not None, 'a result after the only fit has failed: {}', got)
        g.same('result after a failed fit', got, earlier, 1e-9 * (1 + np.abs(earlier)))
        ctx.label('earlier result')
    if case['back']:
        del fail[:]
        S = X * 2 + 1
        ks_target = kms if case['how'] == 'shape' else [ks]
        for t in ks_target:
            t.attach_to(S)
        fit()
        check('fit after a failed one', expected(S))
    ctx.label(case['how'], kind)
    ctx.interesting(case['at'] > 0 or case['first'])


@st.composite
def refits(draw):
    n = draw(g.sizes(1, 6, 20))
    d = draw(g.sizes(1, 3))
    size = draw(g.sizes(2, 4))
    step = st.tuples(st.sampled_from(('attach', 'attach', 'member', 'grow', 'again')),
                     st.integers(0, 3)).map(list)
    return dict(x=draw(g.samples(n=n, d=d, nonneg=True, f32=False, scale=False)),
                n=n, kernels=[draw(g.kernels(TAME, skip=False)) for _ in range(size)],
                normalized=draw(st.booleans()), kind=draw(st.sampled_from(KINDS)),
                weights=draw(st.lists(g.eighths, min_size=size + 3, max_size=size + 3)),
                steps=draw(st.lists(step, min_size=1, max_size=3)))


def run_refit(case, ctx):
    """One composite, fitted again after what it is made of has changed."""
    from kernelmethods import base
    from kernelmethods.operations import linear_combination
    X = g.build(case['x'])
    wide = X.astype(float)  # changed below, beyond the range of narrow types
    kind, size = case['kind'], len(case['kernels'])
    base_of = [X] * size
    specs = list(case['kernels'])

    def values():
        out = []
        for sp, x in zip(specs, base_of):
            model = hist.spec_model(sp, x, None)
            if case['normalized']:
                v, K, T = model.norm
                if v != 'ok':
                    return None
            else:
                K, T = model.K
            if not np.isfinite(T).all():
                return None
            out.append((K, T))
        return out

    if values() is None:
        ctx.label('not normalizable')
        return
    kms = []
    for sp in specs:
        kms.append(base.KernelMatrix(g.make_kernel(sp), normalized=case['normalized']))
        kms[-1].attach_to(X)
    ks = base.KernelSet(kms)
    cls = {'sum': base.SumKernel, 'sumw': base.SumKernel, 'product': base.ProductKernel,
           'average': base.AverageKernel}.get(kind)
    comp = None
    if kind == 'weighted':
        comp = base.WeightedAverageKernel(ks, case['weights'][:size])
    elif cls is not None:
        comp = cls(ks)
    compared = 0
    for step, arg in [['start', 0]] + case['steps']:
        if step == 'attach':  # the same samples in another order: other values in the same places
            turn = (lambda a: a[::-1].copy(), lambda a: np.roll(a, 1, 0), lambda a: a * 2,
                    lambda a: a + np.arange(len(a))[:, None])[arg]
            ks.attach_to(turn(wide), name='again{}'.format(arg))
            base_of = [turn(wide)] * len(kms)
        elif step == 'member':
            i = arg % len(kms)
            other = wide * 3 + 1
            kms[i].attach_to(other, 'other')
            base_of[i] = other
        elif step == 'grow':
            if kind == 'weighted' or len(kms) > size + 2:
                continue
            sp = specs[arg % len(specs)]
            km = base.KernelMatrix(g.make_kernel(sp), normalized=case['normalized'])
            km.attach_to(X)
            ks.append(km)
            kms.append(km)
            specs.append(sp)
            base_of = base_of + [X]
        vs = values()
        if vs is None:
            ctx.label('not normalizable')
            return
        m = len(kms)
        w = [LD(v) for v in case['weights'][:m]]
        if kind == 'product' and out_of_range([v for v, _ in vs]):
            return
        if kind == 'product':
            R, hi = np.ones(vs[0][0].shape, LD), np.ones(vs[0][0].shape, LD)
            for v, t in vs:
                R = R * v
                hi = hi * (np.abs(v) + t)
            T = hi - np.abs(R) + LD(1e-15) * (m + 4) * np.abs(R) + LD(1e-300)
        else:
            if kind == 'lincombn' and abs(sum(w)) < 1e-10:
                return
            ws = {'sum': [LD(1)] * m, 'average': [LD(1) / m] * m,
                  'lincombn': [v / (sum(w) or 1) for v in w]}.get(kind, w)
            R = sum(a * v for a, (v, _) in zip(ws, vs))
            T = 4 * sum(abs(a) * (t + LD(1e-15) * (m + 4) * np.abs(v))
                        for a, (v, t) in zip(ws, vs)) + LD(1e-300)
        if kind in ('lincomb', 'lincombn'):
            got = linear_combination(ks, case['weights'][:m], norm_weights=kind == 'lincombn')
        else:
            comp.fit(*([case['weights'][:m]] if kind == 'sumw' else []))
            got = comp.full
        g.same('{} after {}'.format(kind, step), got, R, T)
        compared += 1
        ctx.label(step)
    ctx.label(kind)
    ctx.interesting(compared > 1 and X.shape[0] > 1)


SUBS = [
    Sub('refits', refits, run_refit, n=1500,
        rule='fitted again after a change of the members, with more than one sample'),
    Sub('one_sample', cases, run, n=4000, rule='a composite of matrices larger than 1x1'),
    Sub('two_samples', lambda: cases(two=True), run, n=1500,
        rule='a combination of two-sample matrices larger than 1x1'),
    Sub('failing', failing, run_failing, n=1200,
        rule='after a successful fit, or failing at other than the first matrix'),
    Sub('refusals', refusals, run_refuse, n=800, rule='every case must be refused'),
]
