"""Stateful, model-based: a kernel set against a plain list of object identities plus the number
of samples; every member checked against the reference Gram matrix after attaching."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist

SIMPLE = [{'k': 'linear'}, {'k': 'gaussian', 'sigma': 1.5}, {'k': 'laplacian', 'gamma': 0.5},
          {'k': 'poly', 'degree': 2}, {'k': 'custom', 'f': 'l1', 'how': 'callable'}]
BAD_ITEMS = ('asym', 'rect', 'vector', 'text', 'none', 'number', 'kernel', 'other_size',
             'other_size_arr', 'unattached', 'other_second', 'other_first')
BAD_INDEX = ('beyond', 'negative', 'float', 'str', 'none', 'slice')
AS = ('list', 'tuple', 'arr', 'range', 'arr4', 'single', 'single')


@st.composite
def cases(draw):
    n = draw(g.sizes(1, 6, 20))
    start = draw(st.sampled_from(('unattached', 'attached', 'pre', 'mixed', 'given', 'bucket', 'two')))
    item = st.tuples(st.integers(0, len(SIMPLE) - 1), st.integers(0, 3), st.booleans()) \
        .map(lambda t: ['append', t[0], t[1], t[2]])
    idxs = st.lists(st.integers(0, 30), min_size=0, max_size=5)
    op = hist.weighted(
        append=(6, item),
        bad=(3, st.sampled_from(BAD_ITEMS).map(lambda b: ['bad', b])),
        extend=(2, st.tuples(st.integers(0, 3), st.sampled_from(
            ('same', 'same', 'copy', 'other', 'list', 'km', 'moved', 'moved'))).map(lambda t: ['extend', *t])),
        take=(2, st.tuples(idxs, st.sampled_from(AS)).map(lambda t: ['take', *t])),
        funcs=(2, st.tuples(idxs, st.sampled_from(AS)).map(lambda t: ['funcs', *t])),
        badtake=(2, st.tuples(idxs, st.integers(0, 5), st.sampled_from((0, 1, 5, -1, -2, 'half',
                                                                        'text', 'nan', 'none')),
                              st.booleans()).map(lambda t: ['badtake', *t])),
        badindex=(2, st.tuples(st.sampled_from(BAD_INDEX), st.integers(0, 4)).map(
            lambda t: ['badindex', *t])),
        get=(2, st.tuples(st.integers(0, 30), st.sampled_from(hist.INT_TYPES)).map(
            lambda t: ['get', *t])),
        attach=(3, st.tuples(g.seeds, st.booleans()).map(lambda t: ['attach', *t])),
        badattach=(2, st.sampled_from(('more', 'less', '1d', '3d')).map(
            lambda b: ['badattach', b])))
    return dict(n=n, start=start, first=draw(st.integers(0, 3)), normalized=draw(st.booleans()),
                ops=draw(st.lists(op, min_size=2, max_size=12)))


def data(n, seed):
    return np.random.RandomState(seed).rand(n, 3) + 0.1


def sym(n, seed):
    a = np.random.RandomState(seed).rand(n, n)
    return a + a.T


class World:
    """The set under test and its model."""

    def __init__(self, case):
        from kernelmethods.base import KernelSet
        from kernelmethods.sampling import KernelBucket
        self.n, self.case, self.made = case['n'], case, 0
        start = case['start']
        self.pre_ok = start in ('pre', 'mixed', 'given', 'two')
        self.members, self.specs, self.keep = [], {}, []
        self.num = None
        self.seed = 1
        self.array = np.empty((self.n, 3))
        if start == 'given':
            self.set = KernelSet(num_samples=self.n)
            self.num = self.n
        elif start == 'bucket':
            self.set = KernelBucket(poly_degree_values=None, rbf_sigma_values=[1.5],
                                    laplace_gamma_values=None, sigmoid_gamma_values=None,
                                    sigmoid_offset_values=None)
            self.members = [self.set[i] for i in range(len(self.set))]
            g.require(len(self.members) == 2, 'bucket of 2 has {}', len(self.members))
            self.specs = {id(self.members[0]): ({'k': 'linear'}, True),
                          id(self.members[1]): ({'k': 'gaussian', 'sigma': 1.5}, True)}
        else:
            first = [self.item(i, i) for i in range(case['first'])]
            self.set = KernelSet(first) if first else KernelSet()
            self.members = self.resolved(first)
            if first:
                self.num = None if start == 'unattached' else self.known()
            else:
                self.num = 'unknown'  # decided by the first one added
        self.check()

    def known(self):
        """Number(s) of samples once known."""
        return (self.n, self.n + 2) if self.case['start'] == 'two' else self.n

    def resolved(self, items):
        """Arrays are wrapped by the set; everything else is held by identity."""
        out = []
        for i, it in enumerate(items):
            if isinstance(it, (np.ndarray, list)):
                m = self.set[len(self.members) + i]
                g.require(np.array_equal(m.full, np.array(it)), 'wrapped matrix differs')
                out.append(m)
            else:
                out.append(it)
        return out

    def item(self, which, form):
        """Something that fits into the set in its current state."""
        from kernelmethods.base import KernelMatrix, KernelMatrixPrecomputed
        start = self.case['start']
        spec = SIMPLE[which % len(SIMPLE)]
        self.made += 1
        if start in ('pre', 'given') or (start == 'mixed' and form % 2):
            a = sym(self.n, self.made)
            return (a, KernelMatrixPrecomputed(a), a.tolist(), KernelMatrixPrecomputed(a))[form % 4]
        km = KernelMatrix(g.make_kernel(spec), normalized=self.case['normalized'])
        self.specs[id(km)] = (spec, self.case['normalized'])
        self.keep.append(km)  # so that identities are never reused
        if start == 'two':
            km.attach_to(data(self.n, self.seed), 'one', data(self.n + 2, self.seed + 1), 'two')
            return km
        attached = start in ('attached', 'mixed')
        if start in ('unattached', 'bucket') and isinstance(getattr(self, 'num', None), int):
            attached = True  # the set has been attached since
        if attached:
            km.attach_to(data(self.n, self.seed))
        return km

    def check(self):
        s = self.set
        g.require(s.size == len(self.members) and len(s) == len(self.members),
                  'size {} / len {} with {} members', s.size, len(s), len(self.members))
        got = list(s)
        g.require(len(got) == len(self.members) and
                  all(a is b for a, b in zip(got, self.members)),
                  'iteration does not give the members in order')
        if len(self.members) <= 6:  # two iterations at the same time
            pairs = [(a, b) for a in s for b in s]
            want = [(a, b) for a in self.members for b in self.members]
            g.require(len(pairs) == len(want) and
                      all(a is c and b is d for (a, b), (c, d) in zip(pairs, want)),
                      'iterating twice at the same time does not give all pairs of members')
        g.require(all(s[i] is m for i, m in enumerate(self.members)), 'indexing is inconsistent')
        if self.num != 'unknown':
            got = s.num_samples
            g.require((tuple(got) if isinstance(self.num, tuple) else got) == self.num,
                      'num_samples is {!r}, expected {!r}',
                      s.num_samples, self.num)

    def values(self):
        """Every attached member has the values of the current sample."""
        X = data(self.n, self.seed)
        if self.case['start'] == 'two':
            for m in self.members:
                spec, normed = self.specs[id(m)]
                hist.apply_view(m, 'full', hist.spec_model(spec, X, data(self.n + 2, self.seed + 1)),
                                normed)
            return
        for m in self.members:
            if id(m) in self.specs and m.num_samples is not None:
                spec, normed = self.specs[id(m)]
                hist.apply_view(m, 'full', hist.spec_model(spec, X), normed)


def collect(vals, how):
    if how == 'range':
        lo = min(vals) if vals else 0
        return range(lo, max(vals) + 1) if vals else range(0)
    return {'list': list, 'tuple': tuple, 'arr': lambda v: np.array(v, dtype=int),
            'arr4': lambda v: np.array(v, dtype='i4')}[how](vals)


def bad_item(w, what):
    from kernelmethods.base import KernelMatrix
    n = w.n
    if what == 'asym':
        a = sym(n + 1, 3)
        a[0, 1] += 1
        return a
    if what == 'rect':
        return np.ones((n, n + 1))
    if what == 'other_size':
        km = KernelMatrix(g.make_kernel(SIMPLE[0]))
        km.attach_to(data(n + 1, 9))
        return km
    if what == 'other_size_arr':
        return sym(n + 2, 4)
    if what in ('other_second', 'other_first'):  # two samples, of which one fits
        km = KernelMatrix(g.make_kernel(SIMPLE[0]))
        a, b = (n, n + 3) if what == 'other_second' else (n + 1, n + 2)
        km.attach_to(data(a, 9), sample_two=data(b, 8), name_two='two')
        return km
    if what == 'unattached':
        return KernelMatrix(g.make_kernel(SIMPLE[0]))
    return {'vector': np.ones(n), 'text': 'kernel', 'none': None, 'number': 3.0,
            'kernel': g.make_kernel(SIMPLE[0])}[what]


def run(case, ctx):
    from kernelmethods.base import KernelMatrix, KernelSet
    w = World(case)
    applied = refused = 0
    for op in case['ops']:
        kind, s = op[0], w.set
        size = len(w.members)
        if kind == 'append':
            it = w.item(op[1], op[2])
            if op[3] and w.members and not isinstance(it, (np.ndarray, list)):
                it = w.members[op[1] % size]  # the same matrix once more
            s.append(it)
            w.members += w.resolved([it])
            if w.num == 'unknown':
                w.num = None if case['start'] == 'unattached' else w.known()
            applied += 1
        elif kind == 'bad':
            if op[1] == 'unattached' and not isinstance(w.num, (int, tuple)):
                continue
            if op[1].startswith('other') and w.num == 'unknown':
                continue
            g.raises('appending {} to {}'.format(op[1], case['start']), Exception, s.append,
                     bad_item(w, op[1]))
            refused += 1
        elif kind == 'extend':
            if w.num == 'unknown':
                continue
            if op[2] == 'copy':
                if size > 12 or not size:
                    continue
                s.extend(KernelSet(list(s)))
                w.members = w.members * 2
            elif op[2] == 'same':
                items = [w.item(i, i) for i in range(op[1])]
                other = KernelSet(items)
                if other.num_samples != w.num:
                    continue  # an empty set of unknown size
                s.extend(other)
                w.members += [other[i] for i in range(len(other))]
                g.require(len(other) == op[1], 'extending changed the other set')
                if op[1]:
                    other.append(other[0])  # must not show up in the set under test
            elif op[2] == 'moved':
                # a member of the other set was attached to something else in between
                if not isinstance(w.num, int):
                    continue
                kms = [KernelMatrix(g.make_kernel(SIMPLE[i])) for i in range(op[1] + 1)]
                for km in kms:
                    km.attach_to(data(w.n, 11))
                other = KernelSet(kms)
                kms[-1 if w.n % 2 else op[1] // 2].attach_to(data(w.n + 1, 12))
                g.raises('extending by a set of which one member has another size', Exception,
                         s.extend, other)
                g.require(len(other) == len(kms) and all(a is b for a, b in zip(other, kms)),
                          'extending changed the other set')
                refused += 1
            elif op[2] == 'other':
                other = KernelSet([sym(w.n + 1, 5), sym(w.n + 1, 6)])
                g.raises('extending by a set of another size', Exception, s.extend, other)
                refused += 1
            else:
                arg = list(w.members) if op[2] == 'list' else bad_item(w, 'other_size')
                g.raises('extending by a ' + op[2], Exception, s.extend, arg)
                refused += 1
            applied += 1
        elif kind in ('take', 'funcs'):
            vals = [v % size for v in op[1]] if size else []
            if op[2] == 'single':  # one index, not in a list
                vals = vals[:1]
                if not vals:
                    continue
                obj = vals[0] if len(op[1]) % 2 else np.int32(vals[0])
            else:
                obj = collect(vals, op[2])
                vals = [int(v) for v in obj]
            if kind == 'take':
                new = s.take(obj, name='chosen')
                g.require(isinstance(new, KernelSet) and new is not s, 'take: {!r}', type(new))
                g.require(len(new) == len(vals) and
                          all(new[i] is w.members[v] for i, v in enumerate(vals)),
                          'take({!r}) did not return these matrices in order', obj)
                g.require(new.name == 'chosen', 'take: name {!r}', new.name)
                if vals and w.num != 'unknown':
                    g.require(new.num_samples == s.num_samples, 'take: num_samples {!r}',
                              new.num_samples)
                    new.append(w.members[vals[0]])  # must not show up in the original
                    g.require(len(new) == len(vals) + 1 and new[len(vals)] is w.members[vals[0]],
                              'appending to the selection')
            elif all(hasattr(w.members[v], 'kernel') for v in vals):
                fs = s.get_kernel_funcs(obj)
                g.require(isinstance(fs, tuple) and len(fs) == len(vals) and
                          all(f is w.members[v].kernel for f, v in zip(fs, vals)),
                          'get_kernel_funcs({!r}) did not return these functions in order', obj)
            applied += 1
        elif kind == 'badtake':
            vals = [v % size for v in op[1]] if size else []
            at = op[2] % (len(vals) + 1)
            if isinstance(op[3], str):  # in range once truncated or converted
                wrong = {'half': max(size, 1) - 0.5, 'text': '0', 'nan': float('nan'),
                         'none': None}[op[3]]
                vals = vals[:at] + [wrong] + vals[at:]
                if op[3] == 'half' and op[2] % 2:
                    vals = np.array(vals)
            else:
                wrong = size + op[3] if op[3] >= 0 else op[3]
                vals = vals[:at] + [wrong] + vals[at:]
            g.raises('selecting {} out of {}'.format(vals, size), Exception,
                     s.take if op[4] else s.get_kernel_funcs, vals)
            refused += 1
        elif kind == 'badindex':
            obj = {'beyond': size + op[2], 'negative': -1 - op[2], 'float': 0.5, 'str': '0',
                   'none': None, 'slice': slice(0, 1)}[op[1]]
            g.raises('set[{!r}] of {}'.format(obj, size), Exception, lambda: s[obj])
            refused += 1
        elif kind == 'get':
            if size:
                v = op[1] % size
                t = op[2]
                obj = v if t == 'int' else np.dtype(t).type(v)
                g.require(s[obj] is w.members[v], 'set[{!r}] is not the one added', obj)
        elif kind == 'attach':
            if w.pre_ok:
                continue
            w.seed = op[1]
            if op[2]:  # the same array with other contents
                w.array[...] = data(w.n, op[1])
                s.attach_to(w.array, name='smp')
            else:
                s.attach_to(data(w.n, op[1]), name='smp')
            w.num = w.n
            for m in w.members:
                g.require(m.num_samples == w.n, 'member not attached: {!r}', m.num_samples)
            w.values()
            applied += 1
        elif kind == 'badattach':
            if w.pre_ok or not isinstance(w.num, int):
                continue
            X = {'more': data(w.n + 1, 1), 'less': data(w.n + 3, 1)[:w.n - 1],
                 '1d': data(w.n, 1)[:, 0], '3d': np.zeros((w.n, 2, 2))}[op[1]]
            g.raises('attaching to shape {}'.format(X.shape), Exception, s.attach_to, X)
            for m in w.members:
                g.require(m.num_samples == w.n, 'member changed: {!r}', m.num_samples)
            w.values()
            refused += 1
        ctx.label(kind + (':' + str(op[1]) if kind.startswith('bad') and
                          kind != 'badtake' else ''))
        w.check()
    w.values()
    ctx.label(case['start'])
    ctx.interesting(applied >= 1 and len(w.members) > 0 and applied + refused >= 2)


FORMS = ('list', 'tuple', 'gen', 'set', 'single', 'dict', 'iter')
WRONG = ('text', 'number', 'kernel', 'other_size', 'declared', 'text_inside', 'none_inside')


@st.composite
def constructions(draw):
    n = draw(g.sizes(1, 6, 20))
    return dict(n=n, form=draw(st.sampled_from(FORMS)), seed=draw(g.seeds),
                items=draw(st.lists(st.tuples(st.integers(0, 4), st.sampled_from(('pre', 'arr', 'km'))),
                                    min_size=1, max_size=5).map(lambda v: [list(t) for t in v])),
                given=draw(st.booleans()), wrong=draw(st.sampled_from(WRONG)),
                at=draw(st.integers(0, 4)), name=draw(st.sampled_from(('KernelSet', 'mine', ''))))


def construct(case, ctx):
    from kernelmethods.base import KernelMatrix, KernelMatrixPrecomputed, KernelSet
    n, form = case['n'], case['form']
    items = []
    for j, (which, kind) in enumerate(case['items']):
        a = sym(n, case['seed'] % 10000 + j)
        if kind == 'km':
            km = KernelMatrix(g.make_kernel(SIMPLE[which]))
            km.attach_to(data(n, case['seed']))
            items.append(km)
        else:
            items.append(KernelMatrixPrecomputed(a) if kind == 'pre' or form in ('single', 'dict')
                         else a)
    if form == 'single':
        items = items[:1]
    declared = dict(num_samples=n) if case['given'] else {}
    make = {'list': list, 'tuple': tuple, 'gen': lambda v: (x for x in v),
            'set': lambda v: KernelSet(v), 'single': lambda v: v[0],
            'dict': lambda v: {x: 1 for x in v}.keys(), 'iter': iter}[form]
    s = KernelSet(make(items), name=case['name'], **declared)
    g.require(len(s) == len(items) and s.size == len(items), '{} of {}: size {}', form,
              len(items), s.size)
    g.require(s.num_samples == n, '{}: num_samples {!r}', form, s.num_samples)
    g.require(s.name == case['name'], 'name {!r}', s.name)
    for i, it in enumerate(items):
        if isinstance(it, np.ndarray):
            g.require(np.array_equal(s[i].full, it), '{}: matrix {} differs', form, i)
        else:
            g.require(s[i] is it, '{}: member {} is another one', form, i)
    # constructions that do not fit
    w, at = case['wrong'], case['at'] % (len(items) + 1)
    if w in ('text', 'number', 'kernel'):
        arg = {'text': 'kernels', 'number': 3, 'kernel': g.make_kernel(SIMPLE[0])}[w]
        kw = declared
    elif w == 'declared':
        arg, kw = list(items), dict(num_samples=n + 1)
    else:
        bad = {'other_size': sym(n + 1, 2), 'text_inside': 'kernel', 'none_inside': None}[w]
        arg, kw = items[:at] + [bad] + items[at:], declared
    g.raises('a set of {}'.format(w), Exception, lambda: KernelSet(arg, **kw))
    g.require(len(s) == len(items), 'another construction changed the set')
    ctx.label(form, 'wrong:' + w)
    ctx.interesting(len(items) >= 2 or form == 'single')


SUBS = [Sub('container', cases, run, n=8000,
            rule='two or more operations that change, select from or are refused by a non-empty '
                 'set'),
        Sub('construct', constructions, construct, n=2000,
            rule='two or more matrices, or a single one not in a list')]
