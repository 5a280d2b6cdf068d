"""Stateful, model-based: attributes of kernel matrices and sets against plain dictionaries."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import hist

NAMES = ('tag', 'x', 7, '', 'another', ('a', 1), ' tag', 'Tag', 'x ', 0, '7', 'tag_', 'another name\n')
VALUES = (0, 1, -2.5, 'word', '', None, True, False, [1, 2], ['only'], {'k': 1}, 'ab', 12)


@st.composite
def cases(draw):
    size = draw(g.sizes(1, 5, 12))
    name = st.integers(0, len(NAMES) - 1)
    val = st.integers(0, len(VALUES) - 1)
    who = st.integers(0, 4)
    op = hist.weighted(
        set=(5, st.tuples(who, name, val).map(lambda t: ['set', *t])),
        get=(4, st.tuples(who, name, val).map(lambda t: ['get', *t])),
        attrs=(1, who.map(lambda t: ['attrs', t])),
        attach=(2, st.tuples(who, st.booleans()).map(lambda t: ['attach', *t])),
        view=(2, st.tuples(who, st.sampled_from(('full', 'diagonal', 'sizes', 'frob'))).map(
            lambda t: ['view', *t])),
        badattach=(1, who.map(lambda t: ['badattach', t])),
        sset=(5, st.tuples(name, st.sampled_from(('scalar', 'text', 'one', 'onetuple', 'onearr',
                                                  'each', 'each', 'eacharr', 'eachtuple',
                                                  'wrong', 'wrong')),
                           val, st.integers(0, 3)).map(lambda t: ['sset', *t])),
        sget=(4, st.tuples(name, val).map(lambda t: ['sget', *t])),
        sattach=(2, st.tuples(st.one_of(st.none(), name), val).map(lambda t: ['sattach', *t])))
    return dict(size=size, ops=draw(st.lists(op, min_size=3, max_size=14)),
                shared=draw(st.booleans()), outsiders=draw(st.integers(0, 1)))


def run(case, ctx):
    from kernelmethods.base import KernelMatrix, KernelSet
    from kernelmethods.numeric_kernels import GaussianKernel, LinearKernel
    size = case['size']
    one = LinearKernel()
    kms = [KernelMatrix(one if case['shared'] else GaussianKernel(), normalized=False)
           for _ in range(size + case['outsiders'])]
    X = np.arange(8.0).reshape(4, 2) + 1
    for km in kms:
        km.attach_to(X)
    ks = KernelSet(kms[:size])
    model = [dict() for _ in kms]
    changes = reads = 0
    for op in case['ops']:
        kind = op[0]
        if kind in ('set', 'get', 'attrs', 'attach', 'view', 'badattach'):
            i = op[1] % len(kms)
            km = kms[i]
        if kind == 'set':
            km.set_attr(NAMES[op[2]], VALUES[op[3]])
            model[i][NAMES[op[2]]] = VALUES[op[3]]
            changes += 1
        elif kind == 'get':
            name, dflt = NAMES[op[2]], VALUES[op[3]]
            got = km.get_attr(name, value_if_not_found=dflt)
            want = model[i].get(name, dflt)
            g.require(isinstance(got, bool) is isinstance(want, bool) and got == want, 'get_attr({!r}): {!r} not {!r}',
                      name, got, want)
            if name not in model[i]:
                g.require(km.get_attr(name) is None, 'unset attribute without default: {!r}',
                          km.get_attr(name))
            reads += 1
        elif kind == 'attrs':
            g.require(dict(km.attributes()) == model[i], 'attributes() {!r} instead of {!r}',
                      km.attributes(), model[i])
            reads += 1
        elif kind == 'attach':
            if op[2]:
                km.attach_to(X + 1)
            else:
                km.attach_to(X, sample_two=X + 2, name_two='b')
                km.attach_to(X)
            model[i] = {}
            changes += 1
        elif kind == 'badattach':
            g.raises('attach_to a vector', Exception, km.attach_to, X[0])
        elif kind == 'view':
            if op[2] == 'full':
                km.full
            elif op[2] == 'diagonal':
                km.diagonal()
            elif op[2] == 'frob':
                km.frob_norm
            else:
                len(km)
        elif kind == 'sset':
            name, how, v = NAMES[op[1]], op[2], VALUES[op[3]]
            vals = [v if k == 0 else '{}{}'.format(k, v) for k in range(size)]
            if how == 'scalar':
                arg = v if not isinstance(v, (list, dict)) else 5
                vals = [arg] * size
            elif how == 'text':
                arg, vals = 'word', ['word'] * size
            elif how == 'one':
                arg, vals = [v], [v] * size
            elif how == 'onetuple':
                arg, vals = (v,), [v] * size
            elif how == 'onearr':
                arg, vals = np.array([2.5]), [2.5] * size
            elif how == 'each':
                arg = list(vals)
            elif how == 'eachtuple':
                arg = tuple(vals)
            elif how == 'eacharr':
                arg = np.arange(size) * 1.5
                vals = arg.tolist()
            else:
                count = [c for c in (size + 1, size - 1, size + 2, 0)
                         if c not in (1, size) and c >= 0][op[4] % 2]
                g.raises('{} values for {} matrices'.format(count, size), ValueError, ks.set_attr,
                         name, ['v'] * count)
                vals = None
            if vals is not None:
                ks.set_attr(name, arg)
                for i in range(size):
                    model[i][name] = vals[i]
            changes += 1
        elif kind == 'sget':
            name, dflt = NAMES[op[1]], VALUES[op[2]]
            got = ks.get_attr(name, dflt)
            want = [model[i].get(name, dflt) for i in range(size)]
            g.require(isinstance(got, (list, tuple)) and list(got) == want,
                      'set.get_attr({!r}): {!r} not {!r}', name, got, want)
            reads += 1
        else:
            name = None if op[1] is None else NAMES[op[1]]
            if name is None:
                ks.attach_to(X * 2)
            else:
                ks.attach_to(X * 2, attr_name=name, attr_value=VALUES[op[2]])
            for i in range(size):
                model[i] = {} if name is None else {name: VALUES[op[2]]}
            changes += 1
        ctx.label(kind + (':' + op[2] if kind == 'sset' else ''))
        for km, want in zip(kms, model):
            for name in NAMES:
                got = km.get_attr(name, 'unset')
                g.require(got == want.get(name, 'unset'), 'after {}: attribute {!r} is {!r} instead '
                          'of {!r}', op, name, got, want.get(name, 'unset'))
    ctx.interesting(changes > 0 and changes + reads >= 3)


SUBS = [Sub('attributes', cases, run, n=8000,
            rule='three or more attribute operations, at least one of which changes something')]
