"""Oracle: a fresh estimator built with the same parameters and fitted once on the same data; a dict model of
the parameters; manual loops for cross-validation and grid search."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub
from pbt import gens as g
from pbt import svm
from pbt.props import c18

KINDS = ('linear', 'gaussian', 'gaussian', 'laplacian', 'poly', 'custom')
ESTS = ('KernelMachine', 'KernelMachineRegressor', 'OptimalKernelSVC', 'OptimalKernelSVR')
BUCKETS = ('linear_only', 'light', 'gauss', 'poly', 'mixed', 'raw')
C_VALS = (1.0, 0.05, 0.3, 5.0, 2)
EPS_VALS = (0.1, 0.01, 0.5)
TOL_VALS = (1e-3, 1e-5, 0.1)


def space(name):
    """Parameter names and the number of choices of each."""
    if name.startswith('Kernel'):
        return {'k_func': 3, 'normalized': 2, 'learner_id': 2 if name == 'KernelMachine' else 1}
    out = {'k_bucket': len(BUCKETS), 'method': 6, 'C': len(C_VALS), 'shrinking': 2,
           'tol': len(TOL_VALS)}
    if name.endswith('SVR'):
        out['epsilon'] = len(EPS_VALS)
    return out


@st.composite
def settings(draw, name, full=False):
    sp = space(name)
    keys = sorted(sp)
    if not full:
        keys = draw(st.lists(st.sampled_from(keys), min_size=1, max_size=3, unique=True))
    return {k: draw(st.integers(0, sp[k] - 1)) for k in keys}


@st.composite
def datasets(draw, n=None):
    return dict(n=n or draw(g.about(10, 18)), d=draw(st.integers(1, 4)), s=draw(g.seeds),
                xkind=draw(st.sampled_from(('unif', 'unif', 'blobs', 'f4', 'int'))),
                y=draw(st.integers(0, 5)), w=draw(st.sampled_from((False, False, True))))


OPS = ('fit', 'fit', 'fit', 'predict', 'predict', 'set', 'set', 'clone', 'badfit', 'badpredict',
       'score', 'reset', 'badset')


@st.composite
def cases(draw, optimal):
    name = draw(st.sampled_from(ESTS[2:] if optimal else ESTS[:2]))
    ops = []
    for _ in range(draw(st.integers(3, 12))):
        op = draw(st.sampled_from(OPS))
        ops.append([op, draw(settings(name))] if op == 'set' else [op, draw(st.integers(0, 2))])
    return dict(est=name, kernels=[draw(g.tame(KINDS)) for _ in range(3)],
                init=draw(settings(name, draw(st.booleans()))),
                data=[draw(datasets()) for _ in range(3)], ops=ops)


def dataset(spec, reg, strings):
    X = c18.points(spec['xkind'], spec['n'], spec['d'], spec['s'])
    # continuous jitter: no exact ties
    if X.dtype.kind == 'f':
        X = X + (np.random.RandomState(spec['s'] ^ 9).rand(*X.shape) * 0.01).astype(X.dtype)
    if reg:
        y = c18.real_targets(('lin', 'wavy', 'int', 'f4', 'small', 'noise')[spec['y']], X, spec['s'])
    else:
        kinds = ('two', 'pm1', 'three', 'str', 'str3', 'unsorted') if strings else \
            ('two', 'pm1', 'three', 'far', 'unsorted', 'i1')
        y = c18.labels(kinds[spec['y']], spec['n'], spec['s'], 0.2)
    w = np.random.RandomState(spec['s'] ^ 5).rand(spec['n']) * 2 + 0.05 if spec['w'] else None
    T = c18.points(spec['xkind'] if spec['xkind'] != 'int' else 'unif', 9, spec['d'],
                   spec['s'] ^ 123)
    return X, y, w, T


class World:
    """Parameter objects of a case."""

    def __init__(self, case):
        from kernelmethods import algorithms as alg
        self.case = case
        self.name = case['est']
        self.cls = getattr(alg, self.name)
        self.reg = self.name in ('KernelMachineRegressor', 'OptimalKernelSVR')
        self.optimal = self.name.startswith('Optimal')
        self.kernels = [g.make_kernel(s) for s in case['kernels']]
        self.buckets = [self.bucket(b) for b in BUCKETS]

    def bucket(self, b):
        from kernelmethods.sampling import KernelBucket
        if b in ('linear_only', 'light'):
            return b
        return KernelBucket(poly_degree_values={'poly': [2, 3], 'mixed': [2]}.get(b),
                            rbf_sigma_values={'gauss': [0.5, 1.0, 4.0], 'mixed': [1.0],
                                              'raw': [2.0]}.get(b),
                            laplace_gamma_values={'mixed': [0.5]}.get(b),
                            sigmoid_gamma_values=None, sigmoid_offset_values=None, name=b,
                            normalize_kernels=b != 'raw')

    def value(self, key, i):
        if key == 'k_func':
            return self.kernels[i]
        if key == 'k_bucket':
            return self.buckets[i]
        if key == 'method':
            return ('align/corr', 'align/corr', 'align/corr', 'align/corr', 'align/corr',
                    'cv_risk')[i]
        if key == 'learner_id':
            return ('SVC', 'svm')[i] if self.name == 'KernelMachine' else 'SVR'
        return {'normalized': (True, False), 'C': C_VALS, 'shrinking': (True, False),
                'tol': TOL_VALS, 'epsilon': EPS_VALS}[key][i]

    def values(self, setting):
        return {k: self.value(k, i) for k, i in setting.items()}

    def usable(self, params, X):
        """Whether fitting terminates quickly."""
        if self.optimal:
            return True
        return svm.calm(params['k_func'], X, params['normalized'])


def check_params(est, model, who):
    got = est.get_params()
    g.require(set(got) == set(model), '{}: get_params has {} instead of {}', who, sorted(got),
              sorted(model))
    for k, v in model.items():
        g.require(got[k] is v, '{}: parameter {} is {!r} instead of {!r}', who, k, got[k], v)
    g.require(est.get_params(deep=False).keys() == got.keys(), '{}: get_params(deep=False)', who)


PROBE = np.array([[0.3, 0.9, 0.2], [0.7, 0.1, 0.4], [0.25, 0.5, 1.0]])


def traits(v):
    """Comparable form of a parameter value."""
    from kernelmethods.sampling import KernelBucket
    from kernelmethods.base import BaseKernelFunction
    if isinstance(v, BaseKernelFunction):
        return (type(v).__name__, [float(v(a, b)) for a in PROBE for b in PROBE])
    if isinstance(v, KernelBucket):
        return (type(v).__name__, v.name, [traits(m.kernel) for m in v])
    return (type(v).__name__, v)


def closes(what, got, ref, reg):
    got, ref = np.asarray(got), np.asarray(ref)
    g.require(got.shape == ref.shape, '{}: shape {} instead of {}', what, got.shape, ref.shape)
    if reg:
        g.same(what, got, ref, 1e-7 * (1 + np.abs(ref)))
    else:
        g.require(np.array_equal(got, ref) and got.dtype == ref.dtype,
                  '{}: {!r} instead of {!r}', what, got, ref)


def fit_fresh(world, model, data):
    X, y, w, T = data
    est = world.cls(**model)
    est.fit(X, y) if w is None else est.fit(X, y, sample_weight=w)
    return est


def run(case, ctx):
    from sklearn.base import clone
    from sklearn.exceptions import NotFittedError
    world = World(case)
    reg = world.reg
    data = [dataset(d, reg, not world.optimal) for d in case['data']]
    init = world.values(case['init'])
    if world.optimal:
        init.setdefault('k_bucket', 'linear_only')
        init.setdefault('method', 'align/corr')
    elif 'k_func' not in init:
        init['k_func'] = world.kernels[0]
    est = world.cls(**init)
    model = dict(est.get_params())
    for k, v in init.items():
        g.require(k in model and model[k] is v, 'parameter {} given as {!r} is {!r}', k, v,
                  model.get(k))
    g.require(set(model) == set(space(world.name)), 'parameters {}', sorted(model))
    current = None  # data of the last fit, while its parameters are still the current ones
    fits = predicts = changed = 0
    ever = False
    for op, arg in case['ops']:
        if op == 'fit':
            X, y, w, T = data[arg]
            if not world.usable(model, X):
                continue
            out = est.fit(X, y) if w is None else est.fit(X, y, sample_weight=w)
            g.require(out is est, 'fit returned {!r}', type(out))
            current, ever = arg, True
            fits += 1
            if not reg:
                g.require(np.array_equal(est.classes_, np.unique(y)), 'classes_ {!r} for {!r}',
                          est.classes_, np.unique(y))
        elif op == 'predict' or op == 'score':
            if not ever:
                g.raises('predict before fit', NotFittedError, est.predict, data[arg][3])
                continue
            if current is None:
                continue
            fresh = fit_fresh(world, model, data[current])
            X, y, w, T = data[current]
            if op == 'predict':
                if arg == 1:
                    T = X
                elif arg == 2:
                    T = T[:1 + len(T) // 3]
                closes('prediction', est.predict(T), fresh.predict(T), reg)
            else:
                a, b = est.score(X, y), fresh.score(X, y)
                g.require(abs(a - b) < 1e-6 * (1 + abs(b)), 'score {} instead of {}', a, b)
            predicts += 1
        elif op == 'set':
            new = world.values(arg)
            out = est.set_params(**new)
            g.require(out is est, 'set_params returned {!r}', type(out))
            if any(model[k] is not v for k, v in new.items()):
                current = None
                changed += ever
            model.update(new)
        elif op == 'reset':
            est.set_params(**est.get_params())
        elif op == 'clone':
            other = clone(est)
            g.require(type(other) is world.cls, 'clone is a {}', type(other))
            op_ = other.get_params()
            g.require(set(op_) == set(model), 'clone has parameters {}', sorted(op_))
            for k, v in model.items():
                g.require(traits(op_[k]) == traits(v), 'clone: parameter {} is {!r} instead of '
                          '{!r}', k, op_[k], v)
            g.raises('clone predicts without fit', NotFittedError, other.predict, data[arg][3])
            if arg == 2:  # go on with the clone
                est, model, current, ever = other, dict(op_), None, False
            elif arg == 1 and current is not None:
                X, y, w, T = data[current]
                other.fit(X, y) if w is None else other.fit(X, y, sample_weight=w)
                closes('prediction of a clone', other.predict(T), est.predict(T), reg)
        elif op == 'badfit':
            X, y, w, T = data[arg]
            bad = X.astype('f8')
            bad[0, 0] = np.nan
            g.raises('fit on NaN', ValueError, est.fit, bad, y)
            if ever:
                current = None
        elif op == 'badpredict':
            if not ever:
                g.raises('predict before fit', NotFittedError, est.predict, data[arg][3])
            elif current is not None:
                # wrong number of features, then the right one
                d = data[current][0].shape[1]
                g.raises('predict with too many features', Exception, est.predict,
                         np.ones((3, d + 1)))
                predicts += 1
        check_params(est, model, 'after ' + op)
    if current is not None:
        X, y, w, T = data[current]
        fresh = fit_fresh(world, model, data[current])
        closes('final prediction', est.predict(T), fresh.predict(T), reg)
        predicts += 1
    ctx.label(world.name, *['op ' + o for o, _ in case['ops']])
    ctx.interesting(fits >= 2 and predicts >= 1 and changed >= 1)


# ---------------------------------------------------------------------------------------------

@st.composite
def cv_cases(draw):
    name = draw(st.sampled_from(ESTS))
    return dict(est=name, kernels=[draw(g.tame(KINDS)) for _ in range(3)],
                init=draw(settings(name)), data=[draw(datasets(n=draw(st.integers(15, 24))))],
                folds=draw(st.sampled_from((2, 3, 4))),
                how=draw(st.sampled_from(('score', 'predict', 'grid', 'pipeline', 'grid2'))),
                fitted=draw(st.booleans()), grid=[draw(settings(name)) for _ in range(2)])


def run_cv(case, ctx):
    from sklearn.base import is_classifier, is_regressor
    from sklearn.model_selection import (GridSearchCV, KFold, StratifiedKFold, cross_val_predict,
                                         cross_val_score)
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import MinMaxScaler
    world = World(case)
    reg = world.reg
    X, y, w, T = dataset(case['data'][0], reg, not world.optimal)
    if not reg and min(np.unique(y, return_counts=True)[1]) < 2 * case['folds']:
        return
    params = world.values(case['init'])
    if world.optimal:
        params['method'] = 'align/corr'
        params.setdefault('k_bucket', 'linear_only')
    else:
        params.setdefault('k_func', world.kernels[0])
        params.setdefault('normalized', True)
    est = world.cls(**params)
    g.require(is_classifier(est) == (not reg) and is_regressor(est) == reg,
              '{} is {}recognized as a classifier, {}as a regressor', world.name,
              '' if is_classifier(est) else 'not ', '' if is_regressor(est) else 'not ')
    cv = (KFold if reg else StratifiedKFold)(case['folds'])
    splits = list(cv.split(X, y))
    if not world.optimal and not all(svm.calm(k, X, False) for k in world.kernels):
        return
    if case['fitted']:
        est.fit(X, y)
        est.predict(T)

    def manual(p, Z=X):
        out, pred = [], np.empty(len(y), dtype=y.dtype if not reg else 'f8')
        for tr, te in splits:
            e = world.cls(**p)
            e.fit(Z[tr], y[tr])
            pr = e.predict(Z[te])
            pred[te] = pr
            if reg:
                yt = y[te].astype('f8')
                den = ((yt - yt.mean()) ** 2).sum()
                if den == 0:
                    return None, None
                out.append(1 - ((yt - pr) ** 2).sum() / den)
            else:
                out.append(np.mean(pr == y[te]))
        return np.array(out), pred

    how = case['how']
    scores, preds = manual(params)
    if scores is None:
        return
    tol = 1e-6
    if how == 'score':
        got = cross_val_score(est, X, y, cv=case['folds'])
        g.same('cross_val_score', got, scores, tol * (1 + np.abs(scores)))
        if not reg:
            got = cross_val_score(est, X, y, cv=cv, scoring='accuracy')
            g.same('cross_val_score with accuracy', got, scores, tol)
    elif how == 'predict':
        got = cross_val_predict(est, X, y, cv=case['folds'])
        if reg:
            g.same('cross_val_predict', got, preds, tol * (1 + np.abs(preds)))
        else:
            g.require(np.array_equal(got, preds), 'cross_val_predict {!r} instead of {!r}', got,
                      preds)
    elif how == 'pipeline':
        pipe = make_pipeline(MinMaxScaler((0.5, 2), clip=True), est)
        pipe.fit(X, y)
        Z = MinMaxScaler((0.5, 2), clip=True).fit(X)
        ref = world.cls(**params).fit(Z.transform(X), y)
        closes('prediction in a pipeline', pipe.predict(T), ref.predict(Z.transform(T)), reg)
    else:
        grid = {}
        for sset in case['grid']:
            for k, v in sset.items():
                if k != 'method':
                    grid.setdefault(k, []).append(world.value(k, v))
        if not grid:
            return
        if how == 'grid2':
            k = sorted(grid)[0]
            grid = [{k: grid[k]}]
        gs = GridSearchCV(est, grid, cv=case['folds'], error_score='raise').fit(X, y)
        best = None
        for p, m in zip(gs.cv_results_['params'], gs.cv_results_['mean_test_score']):
            sc, _ = manual(dict(params, **p))
            if sc is None:
                return
            ref = sc.mean()
            best = ref if best is None else max(best, ref)
            g.require(abs(m - ref) < tol * (1 + abs(ref)), 'grid search score {} instead of {} for '
                      '{}', m, ref, {k: str(v) for k, v in p.items()})
        sc, _ = manual(dict(params, **gs.best_params_))
        g.require(sc.mean() >= best - 1e-9 * (1 + abs(best)), 'best parameters are not the best')
        ref = world.cls(**dict(params, **gs.best_params_)).fit(X, y)
        closes('prediction after grid search', gs.predict(T), ref.predict(T), reg)
    for k, v in params.items():
        g.require(est.get_params()[k] is v, '{} altered parameter {}', how, k)
    ctx.label(world.name, how, 'fitted before' if case['fitted'] else 'not fitted before')
    ctx.interesting()


SUBS = [
    Sub('machine', lambda: cases(False), run, n=1300,
        rule='at least two fits, a parameter change after a fit, and a compared prediction'),
    Sub('optimal', lambda: cases(True), run, n=800,
        rule='at least two fits, a parameter change after a fit, and a compared prediction'),
    Sub('selection', cv_cases, run_cv, n=400, rule='cases with usable folds'),
]
