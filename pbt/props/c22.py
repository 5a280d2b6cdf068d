"""Oracle: str, repr and format agree; the text contains the names, parameter values, flags and shapes
of the current configuration (numbers are parsed, not compared as text); metamorphic: different
configurations have different texts, equal ones equal texts, whatever was accessed before."""
import re

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, Violation
from pbt import gens as g

NUM = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')


def text_of(obj, what):
    out = {}
    for how, func in (('str', str), ('repr', repr), ('format', format),
                      ('f-string', lambda o: f'{o}'), ('.format', lambda o: '{}'.format(o)),
                      ('%s', lambda o: '%s' % (o,))):
        try:
            out[how] = func(obj)
        except Exception as exc:
            raise Violation('{} of {} raised {}: {}'.format(how, what, type(exc).__name__, exc))
    first = out['str']
    g.require(isinstance(first, str) and first.strip() != '', 'str of {} is {!r}', what, first)
    for how, t in out.items():
        g.require(t == first, '{} of {} differs from str: {!r} / {!r}', how, what, t, first)
    return first


def numbers(text):
    return [float(v) for v in NUM.findall(text)]


def close(a, b):
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b))


def check_kernel(k, params, name):
    t = text_of(k, 'a kernel')
    g.require(name in t, 'name {!r} missing in {!r}', name, t)
    rest = t.replace(name, '', 1)
    left = numbers(rest)
    for p, v in params.items():
        hit = next((x for x in left if close(x, float(v))), None)
        g.require(hit is not None, 'value {!r} of parameter {} missing in {!r}', v, p, t)
        left.remove(hit)
        named = re.search(r"\b{}\b['\"]?\s*[=:]\s*(?:np\.\w+\()?({})".format(
            re.escape(p), NUM.pattern), rest)
        if named:
            g.require(close(float(named.group(1)), float(v)),
                      '{} is {!r} but the text is {!r}', p, v, t)
    return t


def full_params(spec):
    p = dict(g.DEFAULTS[spec['k']])
    p.update({q: spec[q] for q in p if q in spec})
    return p


@st.composite
def kernel_cases(draw):
    return dict(a=draw(g.kernels(g.NUMERIC, wide=True)), b=draw(g.kernels(g.NUMERIC, wide=True)),
                same=draw(st.booleans()), np=draw(st.booleans()),
                fp=draw(st.dictionaries(st.sampled_from(('w', 'deg', 'offset')), g.eighths,
                                        max_size=3)),
                name=draw(st.sampled_from((None, 'mine', 'k', 'a kernel'))),
                how=draw(st.sampled_from(('def', 'object', 'partial', 'lambda'))))


def run_kernel(case, ctx):
    import functools
    from kernelmethods.base import KernelFromCallable
    from kernelmethods.categorical import MatchCountKernel
    a = case['a']
    b = dict(a) if case['same'] else case['b']
    if case['same'] and len(a) > 1:  # change a single parameter
        p = next((q for q in ('sigma', 'offset', 'b', 'alpha', 'gamma', 'degree') if q in a), None)
        if p:
            b[p] = a[p] + 1 if p in ('degree', 'alpha') and a[p] != -1 else a[p] * 2 + 0.125
    texts = []
    for spec in (a, b):
        s = dict(spec)
        if case['np']:
            s = {q: (np.float64(v) if isinstance(v, float) else v) for q, v in s.items()}
        k = g.make_kernel(s)
        texts.append(check_kernel(k, full_params(spec), k.name))
        g.require(text_of(g.make_kernel(spec), 'a kernel').replace('np.float64', '')
                  == texts[-1].replace('np.float64', ''), 'text of equal kernels differs')
        x = np.array([0.5, 1.0])
        k(x, x)
        g.require(text_of(k, 'a kernel') == texts[-1], 'text changed by evaluating the kernel')
    if a['k'] != b['k'] or any(not close(float(u), float(v)) for u, v in zip(
            full_params(a).values(), full_params(b).values())):
        g.require(texts[0] != texts[1], 'different kernels {} and {} have the same text {!r}', a, b,
                  texts[0])
    g.require(text_of(MatchCountKernel(return_perc=True), 'match count') !=
              text_of(MatchCountKernel(return_perc=False), 'match count'),
              'percentage and count have the same text')

    def fun(x, y, **p):
        return 0.0

    class Fun:
        def __call__(self, x, y, **p):
            return 0.0

    f = {'def': fun, 'object': Fun(), 'partial': functools.partial(fun), 'lambda':
         lambda x, y, **p: 0.0}[case['how']]
    k = KernelFromCallable(f, name=case['name'], **case['fp'])
    name = case['name'] or ('fun' if case['how'] == 'def' else '')
    check_kernel(k, case['fp'], name)
    ctx.label(a['k'], case['how'])
    ctx.interesting(bool(full_params(a)) or bool(case['fp']))


# ---------------------------------------------------------------------------------------------

LETTERS = st.sampled_from(('train', 'test', 'sample', 'Xy', 'data set', 'q'))
OPS = ('one', 'two', 'itself', 'full', 'part', 'normed', 'attr', 'bad', 'failed')


@st.composite
def km_cases(draw):
    ops = []
    for _ in range(draw(st.integers(0, 6))):
        op = draw(st.sampled_from(OPS))
        ops.append([op, draw(st.integers(1, 30)), draw(st.integers(1, 30)), draw(st.integers(1, 5)),
                    draw(LETTERS), draw(LETTERS)])
    return dict(kernel=draw(g.kernels(('linear', 'poly', 'gaussian', 'laplacian', 'custom'))),
                name=draw(st.sampled_from(('KernelMatrix', 'mine', 'km one'))),
                normalized=draw(st.booleans()), ops=ops)


def check_km(km, case, att):
    t = text_of(km, 'a kernel matrix')
    g.require(case['name'] in t, 'name {!r} missing in {!r}', case['name'], t)
    ker = str(km.kernel)
    g.require(ker in t, 'kernel {!r} missing in {!r}', ker, t)
    rest = t.replace(case['name'], '', 1).replace(ker, '', 1)
    if att:
        g.require(str(case['normalized']) in rest and str(not case['normalized']) not in rest,
                  'normalization setting {} not shown in {!r}', case['normalized'], t)
        for name, shape in att:
            g.require(name in rest, 'sample name {!r} missing in {!r}', name, t)
            g.require(re.search(r'(?<!\d){}\D{{1,4}}{}(?!\d)'.format(*shape), rest) is not None,
                      'sample shape {} missing in {!r}', shape, t)
            rest = rest.replace(name, '', 1)
    return t


def run_km(case, ctx):
    from kernelmethods.base import KernelMatrix
    km = KernelMatrix(g.make_kernel(case['kernel']), normalized=case['normalized'],
                      name=case['name'])
    att = None
    texts = {}
    check_km(km, case, att)
    for op, n, m, d, name, name2 in case['ops']:
        if op == 'one':
            km.attach_to(np.ones((n, d)), name_one=name)
            att = [(name, (n, d))]
        elif op == 'two':
            km.attach_to(np.ones((n, d)), name_one=name, sample_two=np.ones((m, d)),
                         name_two=name2)
            att = [(name, (n, d)), (name2, (m, d))]
        elif op == 'itself':
            X = np.ones((n, d))
            km.attach_to(X, name_one=name, sample_two=X, name_two=name2)
            att = [(name, (n, d)), (name2, (n, d))]
            g.require(tuple(np.atleast_1d(km.num_samples)) == (n, n), 'num_samples {}',
                      km.num_samples)
        elif op == 'bad':
            try:
                km.attach_to(np.ones((n, d)), name_one='rejected',
                             sample_two=np.ones((n, d + 1)), name_two='rejected')
            except Exception:
                pass
        elif att and (n * d < 60):
            if op == 'full':
                km.full
            elif op == 'part':
                km[0, 0]
            elif op == 'normed':
                km.normed_km
            elif op == 'failed':
                try:
                    km[10 ** 6, 0]
                except Exception:
                    pass
            else:
                km.set_attr(name, n)
        key = repr(att)
        t = check_km(km, case, att)
        g.require(texts.setdefault(key, t) == t, 'text changed from {!r} to {!r} by {}', texts[key],
                  t, op)
        ctx.label(op)
    g.require(len(set(texts.values())) == len(texts), 'different attachments, same text')
    ctx.interesting(att is not None)


# ---------------------------------------------------------------------------------------------

@st.composite
def set_cases(draw):
    members = [draw(st.sampled_from(('km', 'km', 'pre', 'kmn'))) for _ in range(draw(st.integers(0, 5)))]
    return dict(members=members, kernels=[draw(g.kernels(('linear', 'poly', 'gaussian', 'laplacian')))
                                          for _ in members],
                name=draw(st.sampled_from(('KernelSet', 'bag', 'my set'))), n=draw(st.integers(1, 25)),
                attach=draw(st.booleans()), sname=draw(st.sampled_from((None, 'train', 'zz'))),
                named=draw(st.booleans()), kind=draw(st.sampled_from(('sum', 'product', 'average',
                                                                       'weighted'))),
                strategy=draw(st.sampled_from(('light', 'linear_only', 'exhaustive', 'class'))),
                const=draw(g.eighths), fit=draw(st.booleans()))


def check_set(ks, name, size, members):
    t = text_of(ks, 'a kernel set')
    g.require(name in t, 'name {!r} missing in {!r}', name, t)
    pos = 0
    for m in members:
        s = str(m)
        at = t.find(s, pos)
        g.require(at >= 0, 'member {!r} missing (or out of order) in {!r}', s, t)
        pos = at + len(s)
    head = t.replace(name, '', 1)
    for m in members:
        head = head.replace(str(m), '', 1)
    g.require(any(v == size for v in numbers(head)), 'size {} missing in {!r}', size, t)
    return t


def run_set(case, ctx):
    from kernelmethods import base
    from kernelmethods.sampling import KernelBucket, make_kernel_bucket
    n = case['n']
    X = np.linspace(0.1, 1, n * 2).reshape(n, 2)
    pres = [m == 'pre' for m in case['members']]
    early = case['attach'] or any(pres)
    members = []
    for m, spec in zip(case['members'], case['kernels']):
        if m == 'pre':
            pm = base.KernelMatrixPrecomputed(np.eye(n), name='given')
            t = text_of(pm, 'a precomputed matrix')
            g.require('given' in t and n in numbers(t), 'text {!r} of a precomputed matrix', t)
            members.append(pm)
        else:
            km = base.KernelMatrix(g.make_kernel(spec), normalized=(m == 'kmn'),
                                   **(dict(name='m{}'.format(len(members))) if case['named'] else {}))
            if early:
                km.attach_to(X)
            members.append(km)
    ks = base.KernelSet(members, name=case['name'])
    check_set(ks, case['name'], len(members), members)
    if not any(pres):
        if case['sname']:
            ks.attach_to(X, name=case['sname'])
        else:
            ks.attach_to(X)
        check_set(ks, case['name'], len(members), members)
        for m in members:
            t, att = str(m).replace(str(m.kernel), ''), (case['sname'] or 'sample', '({}, 2)'.format(n))
            g.require(all(v in t for v in att), '{!r} of a set attached as {}', t, att)
    if len(members) >= 2:
        check_set(ks.take([1, 0], name='picked'), 'picked', 2, [members[1], members[0]])
        cls = {'sum': base.SumKernel, 'product': base.ProductKernel, 'average': base.AverageKernel,
               'weighted': base.WeightedAverageKernel}[case['kind']]
        ck = cls(ks, [0.5] * len(members), name='combined') if case['kind'] == 'weighted' \
            else cls(ks, name='combined')
        if case['fit'] and n < 12:
            ck.fit()
        t = text_of(ck, 'a composite kernel')
        g.require('combined' in t and all(str(m) in t for m in members),
                  'text {!r} of a composite kernel', t)
    cm = base.ConstantKernelMatrix(n, case['const'], name='const')
    t = text_of(cm, 'a constant matrix')
    g.require('const' in t and any(close(v, case['const']) or v == case['const'] for v in numbers(t)),
              'text {!r} of a constant matrix', t)
    kb = KernelBucket(name='bucket', poly_degree_values=[2, 3]) if case['strategy'] == 'class' \
        else make_kernel_bucket(case['strategy'])
    check_set(kb, kb.name, len(kb), list(kb))
    if case['attach']:
        kb.attach_to(X)
        check_set(kb, kb.name, len(kb), list(kb))
    ctx.label(case['kind'], 'size {}'.format(len(members)))
    ctx.interesting(len(members) >= 2)


SUBS = [
    Sub('kernels', kernel_cases, run_kernel, n=4000, rule='a kernel with parameters'),
    Sub('matrices', km_cases, run_km, n=3000, rule='attached to a sample'),
    Sub('sets', set_cases, run_set, n=2000, rule='at least two members'),
]
