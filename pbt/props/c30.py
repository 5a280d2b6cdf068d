"""Metamorphic: the same self-contained computations under two different ambient conditions, in
different orders, in concurrent threads and in another process must give the same; process-wide
settings are recorded before and after every call."""
import json
import locale
import logging
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings

import joblib
import numpy as np
import scipy.linalg
import scipy.sparse.linalg
import scipy.spatial
import scipy.stats
import sklearn
import sklearn.metrics.pairwise
import sklearn.model_selection
import sklearn.preprocessing
import sklearn.svm
from hypothesis import strategies as st

from pbt import core
from pbt.core import HarnessError, Sub
from pbt import gens as g
from pbt import hist

# what these libraries load and set on first use is not of interest here
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    sklearn.model_selection.GridSearchCV(
        sklearn.svm.SVC(kernel='precomputed'), dict(C=[1.0]), cv=2).fit(
            np.eye(8), [0, 1] * 4).predict(np.eye(8))
    sklearn.svm.SVR(kernel='precomputed').fit(np.eye(4), [0, 1, 2, 3.0])

TAME = ('linear', 'poly', 'gaussian', 'laplacian', 'chi2', 'custom', 'hadamard', 'sigmoid')
PURE = ('eval', 'matrix', 'two', 'ops', 'constant', 'composite', 'similarity', 'pairwise', 'bucket',
        'rank', 'categorical', 'set', 'refused', 'find')
QUICK = ('machine', 'regressor', 'psd')
SLOW = ('cv', 'optimal', 'optimal_reg')
DRAW = QUICK + SLOW  # may draw random numbers
STRATEGIES = ('exhaustive', 'light', 'linear_only')


# ---------------------------------------------------------------------------------------------
# self-contained computations: a function of their description alone

def rows(n, d, s, positive=True):
    X = np.random.RandomState(s).rand(n, d) * 2 + 0.1
    return X if positive else X - 1.2


def make_set(op, X):
    from kernelmethods.base import KernelMatrix, KernelSet
    kms = []
    for k in op['ks']:
        kms.append(KernelMatrix(g.make_kernel(k), normalized=op['b']))
        kms[-1].attach_to(X, 'train')
    return KernelSet(kms)


def views(km, op):
    out = [str(km), repr(km), np.array(km.full), np.array(km.diagonal()), np.array(km.centered),
           km.frob_norm, km.size, km.num_samples, np.array(km[op['z'] % op['n'], :])]
    full = km.full_sparse
    out.append(np.array(full.todense() if hasattr(full, 'todense') else full))
    try:
        out.append(np.array(km.normed_km))
    except Exception as exc:
        out.append(type(exc).__name__)
    return out


def targets(op, kind):
    n = op['n']
    if kind == 'class':
        return np.arange(n) % 2
    return np.round(np.linspace(-1, 1, n) + 0.3 * np.random.RandomState(op['s']).randn(n), 3)


def compute(op):
    from kernelmethods import base, operations, ranking, sampling
    from kernelmethods.categorical import MatchCountKernel
    kind, n = op['op'], op['n']
    X = rows(n, op['d'], op['s'])
    k = op['ks'][0]
    if kind == 'eval':
        f = g.make_kernel(k)
        big = X[0] * 1e200  # overflows in some kernels
        return [str(f), f(X[0], X[1]), f(X[1], X[0]), f(X[0], big), f(np.zeros(op['d']), X[0])]
    if kind in ('matrix', 'two'):
        km = base.KernelMatrix(g.make_kernel(k), normalized=op['b'])
        if kind == 'matrix':
            km.attach_to(X)
            return views(km, op)
        km.attach_to(X, name_one='one', sample_two=rows(n + 1, op['d'], op['s'] + 1),
                     name_two='two')
        return [str(km), np.array(km.full), np.array(km[:, [0, n]]), km.size]
    if kind == 'constant':
        km = base.ConstantKernelMatrix(n, op['z'] / 4)
        return [str(km), np.array(km.full), np.array(km[0, :]), np.array(km.diag)]
    if kind == 'ops':
        ks = make_set(op, X)
        A, B = np.array(ks[0].full), np.array(ks[1].full)
        out = [operations.center_km(A), operations.frobenius_norm(A),
               operations.frobenius_product(A, B), operations.is_PSD(A)]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            out.append(operations.alignment_centered(A, B, value_if_zero_division=0.0))
            out.append(operations.normalize_km(A) if (A.diagonal() > 1e-3).all() else None)
        return out
    if kind in ('composite', 'similarity', 'pairwise', 'set', 'rank'):
        ks = make_set(op, X)
    if kind == 'composite':
        out = [operations.linear_combination(ks, np.arange(len(ks)) + 1.0, norm_weights=op['b'])]
        for cls in (base.SumKernel, base.ProductKernel, base.AverageKernel):
            c = cls(ks)
            c.fit()
            out += [str(c), c.full]
        c = base.WeightedAverageKernel(ks, np.linspace(0, 1, len(ks)))
        c.fit()
        return out + [c.full]
    if kind == 'similarity':
        return [sampling.correlation_km(ks[0].full, ks[1].full),
                sampling.ideal_kernel(targets(op, 'class' if op['b'] else 'real'))]
    if kind == 'pairwise':
        return [sampling.pairwise_similarity(ks, metric='align' if op['b'] else 'corr')]
    if kind == 'bucket':
        kb = sampling.make_kernel_bucket(STRATEGIES[op['z'] % 3], normalize_kernels=op['b'])
        if op['z'] % 2:  # some of which are skipped with a warning
            from kernelmethods.numeric_kernels import GaussianKernel, PolyKernel
            kb.add_parametrized_kernels(GaussianKernel, 'sigma', [1.5, 'wide', None, -3])
            kb.add_parametrized_kernels(PolyKernel, 'nothing', [2, 3])
        return [kb.size] + [str(m) for m in kb] + [str(m.kernel) for m in kb]
    if kind == 'rank':
        y = targets(op, 'class' if op['b'] else 'real')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return [np.asarray(ranking.rank_kernels(ks, y, method='align/corr'))]
    if kind == 'find':
        kb = sampling.KernelBucket(poly_degree_values=[2, 3], rbf_sigma_values=[0.5, 1.0, 2.0],
                                   laplace_gamma_values=[1.0], sigmoid_gamma_values=None,
                                   sigmoid_offset_values=None, normalize_kernels=op['b'])
        y = targets(op, 'class' if op['z'] % 2 else 'real')
        best = ranking.find_optimal_kernel(kb, X, y, method='align/corr')
        scores = np.sort(np.asarray(ranking.rank_kernels(kb, y, method='align/corr')))
        clear = np.isfinite(scores).all() and scores[-1] - scores[-2] > 1e-7
        return [scores, str(best.kernel) if clear else None]
    if kind == 'categorical':
        f = MatchCountKernel(return_perc=op['b'])
        r = np.random.RandomState(op['s'])
        u = [['red', 'green', 'blue'][i] for i in r.randint(0, 3, op['d'] + 2)]
        v = [['red', 'green', 'blue'][i] for i in r.randint(0, 3, op['d'] + 2)]
        return [str(f), f(u, v), f(np.array(v), np.array(u))]
    if kind == 'set':
        return [str(ks), ks.size, ks.num_samples, [str(m) for m in ks.take([len(ks) - 1, 0])]]
    if kind == 'refused':
        km = base.KernelMatrix(g.make_kernel(k))
        out = []
        for call in (lambda: km.full, lambda: km.attach_to(np.full((3, 2), np.nan)),
                     lambda: base.KernelSet('text'), lambda: base.ConstantKernelMatrix(-1, 1),
                     lambda: operations.frobenius_norm('text'),
                     lambda: operations.linear_combination(make_set(op, X), [1.0]),
                     lambda: sampling.make_kernel_bucket('nonsense'),
                     lambda: ranking.get_estimator('nonsense')):
            try:
                call()
                out.append('returned')
            except Exception as exc:
                out.append(type(exc).__name__)
        return out
    if kind == 'psd':
        return [operations.is_PSD(make_set(dict(op, b=False), X)[0].full),
                bool(g.make_kernel({'k': 'linear'}).is_psd())]
    # fits
    X = np.vstack([X, rows(14, op['d'], op['s'] + 2)])  # at least 16 rows
    op = dict(op, n=len(X))
    T = rows(6, op['d'], op['s'] + 3)
    if kind == 'cv':
        ks = make_set(dict(op, b=True, ks=[{'k': 'gaussian', 'sigma': 1.0},
                                           {'k': 'linear'}, {'k': 'laplacian', 'gamma': 0.5}]), X)
        return [np.asarray(ranking.rank_kernels(ks, targets(op, 'real'), method='cv_risk',
                                                num_folds=2 + op['z'] % 3,
                                                estimator_name='SVR')),
                np.asarray(ranking.rank_kernels(ks, targets(op, 'class'), method='cv_risk',
                                                num_folds=2 + op['s'] % 2))]
    from kernelmethods.algorithms import (KernelMachine, KernelMachineRegressor, OptimalKernelSVC,
                                          OptimalKernelSVR)
    kernel = [{'k': 'gaussian', 'sigma': 1.0}, {'k': 'laplacian', 'gamma': 0.5},
              {'k': 'linear'}][op['z'] % 3]
    if kind == 'machine':
        est = KernelMachine(g.make_kernel(kernel), normalized=op['b'])
        return [est.fit(X, targets(op, 'class')).predict(T)]
    if kind == 'regressor':
        est = KernelMachineRegressor(g.make_kernel(kernel), normalized=op['b'])
        return [est.fit(X, targets(op, 'real')).predict(T)]
    bucket = sampling.KernelBucket(poly_degree_values=None, rbf_sigma_values=[0.5, 2.0],
                                   laplace_gamma_values=None, sigmoid_gamma_values=None,
                                   sigmoid_offset_values=None)
    method = 'align/corr' if op['z'] % 2 else 'cv_risk'
    if kind == 'optimal_reg':
        est = OptimalKernelSVR(k_bucket=bucket, method=method)
        out = [est.fit(X, targets(op, 'real')).predict(T)]
    else:
        est = OptimalKernelSVC(k_bucket=bucket, method=method)
        out = [est.fit(X, targets(op, 'class')).predict(T)]
    return out + [str(est.opt_kernel_)]


def plain(v):
    """As JSON, exactly."""
    if isinstance(v, np.ndarray):
        return [list(v.shape), [plain(x) for x in v.ravel().tolist()]]
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.generic):
        return plain(v.item())
    if isinstance(v, float) and not np.isfinite(v):
        return repr(v)
    return v


def same(what, a, b, top=True):
    if isinstance(a, list) and isinstance(b, list):
        g.require(len(a) == len(b), '{}: {} instead of {} values', what, len(b), len(a))
        if a and all(type(x) is float for x in a) and all(type(x) is float for x in b):
            u, v = np.array(a), np.array(b)
            g.require((np.abs(u - v) <= 1e-9 * np.abs(u).max()).all(),
                      '{}: {} instead of {}', what, b[:6], a[:6])
            return
        for i, (x, y) in enumerate(zip(a, b)):
            same(what + '[{}]'.format(i) if top else what, x, y, False)
    elif type(a) is float and type(b) is float:
        g.require(abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300), '{}: {!r} instead of {!r}', what,
                  b, a)
    else:
        g.require(type(a) is type(b) and a == b, '{}: {!r} instead of {!r}', what, b, a)


# ---------------------------------------------------------------------------------------------
# ambient conditions

def ambient():
    """Everything process-wide that a call could change, except numpy's random state."""
    return dict(
        errors=np.geterr(), errcall=np.geterrcall(), printing=np.get_printoptions(),
        bufsize=np.getbufsize(), sklearn=sklearn.get_config(), filters=list(warnings.filters),
        showwarning=warnings.showwarning, random=random.getstate(), cwd=os.getcwd(),
        environ=dict(os.environ), recursion=sys.getrecursionlimit(), path=list(sys.path),
        logging=(logging.getLogger().level, list(logging.getLogger().handlers), logging.root.disabled,
                 logging.root.manager.disable),
        locale=locale.setlocale(locale.LC_ALL), hooks=(sys.excepthook, sys.displayhook),
        streams=(sys.stdout, sys.stderr), switch=sys.getswitchinterval())


def restore(state):
    os.environ.clear()
    os.environ.update(state['environ'])
    sklearn.set_config(**state['sklearn'])
    os.chdir(state['cwd'])
    sys.setrecursionlimit(state['recursion'])
    np.setbufsize(state['bufsize'])
    sys.path[:] = state['path']
    logging.getLogger().setLevel(state['logging'][0])
    logging.disable(state['logging'][3])


def np_random():
    name, key, pos, has, cached = np.random.get_state()
    return (name, key.tobytes(), pos, has, cached)


class Conditions:
    """Sets the conditions of a run; puts back those before."""

    def __init__(self, spec):
        self.spec = spec

    def __enter__(self):
        s = self.spec
        self.saved = (np.geterr(), np.get_printoptions(), random.getstate(), np.random.get_state())
        self.filters = list(warnings.filters)
        self.state = ambient()
        if s['bare']:  # as in a process started without these
            for name in [v for v in os.environ if v.endswith('_NUM_THREADS')]:
                del os.environ[name]
        np.seterr(all=s['err'])
        np.set_printoptions(precision=s['precision'], threshold=s['threshold'],
                            suppress=s['suppress'])
        random.seed(s['seed'])
        np.random.seed(s['seed'])

    def __exit__(self, *args):
        err, printing, rnd, nprnd = self.saved
        np.seterr(**err)
        np.set_printoptions(**printing)
        restore(self.state)
        random.setstate(rnd)
        np.random.set_state(nprnd)
        warnings.filters[:] = self.filters
        getattr(warnings, '_filters_mutated', lambda: None)()


def judged(i, op):
    """One computation, with the state around it compared; None for its result when refused."""
    from kernelmethods.config import KMNormError
    before, rng = ambient(), np_random()
    try:
        out = plain(compute(op))
    except KMNormError:  # not of interest here
        out = None
    after = ambient()
    for key in before:
        g.require(before[key] == after[key], '{} (computation {}) changed the {} of the process: '
                  '{!r} -> {!r}', op['op'], i, key, str(before[key])[:300], str(after[key])[:300])
    if op['op'] not in DRAW:
        g.require(np_random() == rng, '{} (computation {}) changed the random state of numpy',
                  op['op'], i)
    return out, np_random()


@st.composite
def operation(draw, names=PURE + QUICK):
    return dict(op=draw(st.sampled_from(names)), s=draw(st.integers(0, 10 ** 6)),
                n=draw(g.sizes(2, 6, 20)), d=draw(st.integers(1, 4)), z=draw(st.integers(0, 30)),
                b=draw(st.booleans()),
                ks=draw(st.lists(g.kernels(TAME, skip=False), min_size=2, max_size=3)))


conditions = st.fixed_dictionaries(dict(
    err=st.sampled_from(('ignore', 'warn')), precision=st.sampled_from((2, 8, 17)),
    bare=st.booleans(), threshold=st.sampled_from((3, 1000)), suppress=st.booleans(), seed=st.integers(0, 10 ** 6)))


@st.composite
def setting_cases(draw, slow=False):
    ops = draw(st.lists(operation(), min_size=1, max_size=5))
    if slow:
        ops = [draw(operation(SLOW))] + ops[:2]
    return dict(ops=ops, first=draw(conditions), second=draw(conditions),
                order=draw(st.permutations(list(range(len(ops))))),
                noise=draw(st.lists(operation(), max_size=2)))


def run_settings(case, ctx):
    ops = case['ops']
    with Conditions(case['first']):
        first = {id(op): judged(i, op) for i, op in enumerate(ops)}
    with Conditions(case['second']):
        for op in case['noise']:
            try:
                compute(op)
            except Exception:
                pass
        for i in case['order']:
            op = ops[i]
            if first[id(op)][0] is None:
                continue
            # a start of its own, so that a state set by the call can be told from one drawn from
            np.random.seed(case['first']['seed'] + 1 + i)
            again, state = judged(i, op)
            same('{} under other conditions'.format(op['op']), first[id(op)][0], again)
            if op['op'] in DRAW:
                np.random.seed(case['first']['seed'] + 10 ** 7 + i)
                _, other = judged(i, op)
                g.require(state != other, '{} sets the random state of numpy', op['op'])
                ctx.label('drawing')
            ctx.label(op['op'])
    ctx.interesting(any(r is not None for r, _ in first.values()) and case['first'] != case['second'])


def attempt(op):
    """Computations that are refused (e.g. not normalizable) are of no interest here."""
    from kernelmethods.config import KMNormError
    try:
        compute(op)
    except KMNormError:
        return False
    return True


# ---------------------------------------------------------------------------------------------
# threads

THREADED = ('eval', 'matrix', 'two', 'constant', 'composite', 'similarity', 'pairwise', 'bucket',
            'categorical', 'set', 'machine', 'regressor')


@st.composite
def thread_cases(draw):
    return dict(ops=draw(st.lists(operation(THREADED), min_size=2, max_size=6)),
                twice=draw(st.booleans()), switch=draw(st.sampled_from((1e-6, 1e-5, 1e-4))))


def run_threads(case, ctx):
    usable = [op for op in case['ops'] if attempt(op)]
    want = [plain(compute(op)) for op in usable]
    jobs = list(zip(usable, want)) * (2 if case['twice'] else 1)
    got = [None] * len(jobs)
    start = threading.Barrier(len(jobs) or 1)

    def work(i, op):
        try:
            start.wait(30)
            got[i] = ('ok', plain(compute(op)))
        except Exception as exc:
            got[i] = ('error', repr(exc))

    saved = sys.getswitchinterval()
    sys.setswitchinterval(case['switch'])
    threads = [threading.Thread(target=work, args=(i, op)) for i, (op, _) in enumerate(jobs)]
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join()
    finally:
        sys.setswitchinterval(saved)
    for (op, ref), res in zip(jobs, got):
        g.require(res[0] == 'ok', '{} raises {} while others compute', op['op'], res[1])
        same(op['op'] + ' while others compute', ref, res[1])
        ctx.label(op['op'])
    ctx.interesting(len(jobs) > 1)


# ---------------------------------------------------------------------------------------------
# other processes

CHILD = '''
import json, sys, warnings
sys.path.insert(0, {verif!r})
from pbt import core
import shutil
scratch = core.setup_import()
try:
    from pbt.props import c30
    case = json.load(sys.stdin)
    import numpy as np
    np.random.seed(case['seed'])
    with np.errstate(all='ignore'):
        out = [c30.plain(c30.compute(op)) for op in case['ops']]
    sys.stdout.write('RESULT' + json.dumps(out))
finally:
    shutil.rmtree(scratch, ignore_errors=True)
'''


@st.composite
def process_cases(draw):
    names = ('bucket', 'bucket', 'find', 'rank') + PURE + QUICK
    return dict(ops=draw(st.lists(operation(names), min_size=6, max_size=14)) +
                [draw(operation(SLOW))],
                seed=draw(st.integers(0, 10 ** 6)), hash=draw(st.integers(0, 2 ** 32 - 1)),
                zone=draw(st.sampled_from(('UTC', 'Asia/Tokyo', 'America/New_York'))),
                lang=draw(st.sampled_from(('C', 'C.UTF-8'))),
                blas=draw(st.sampled_from(('1', '2'))))


def run_processes(case, ctx):
    usable = [op for op in case['ops'] if attempt(op)]
    want = [plain(compute(op)) for op in usable]
    scratch = tempfile.mkdtemp(prefix='kmverif-')
    try:
        env = dict(os.environ, PYTHONHASHSEED=str(case['hash']), TZ=case['zone'], LANG=case['lang'],
                   LC_ALL=case['lang'], OPENBLAS_NUM_THREADS=case['blas'], HOME=scratch,
                   VERIF_REPO=core.REPO)
        work = os.path.join(scratch, 'cwd')
        os.mkdir(work)
        run = subprocess.run([sys.executable, '-c', CHILD.format(verif=core.VERIF)], env=env,
                             cwd=work, input=json.dumps(dict(ops=usable, seed=case['seed'])),
                             capture_output=True, text=True, timeout=300)
        left = os.listdir(work)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    at = run.stdout.rfind('RESULT')
    if at < 0:
        g.require('kernelmethods' not in run.stderr, 'fails in another process: {}',
                  run.stderr[-600:])
        raise HarnessError('child process: ' + run.stderr[-600:])
    got = json.loads(run.stdout[at + 6:])
    g.require(not left, 'files are left in the working directory: {}', left)
    g.require(len(got) == len(want), 'results: {}', len(got))
    for op, a, b in zip(usable, want, got):
        same('{} in another process'.format(op['op']), json.loads(json.dumps(a)), b)
        ctx.label(op['op'])
    ctx.interesting(len(usable) > 3)


SUBS = [
    Sub('settings', setting_cases, run_settings, n=1200,
        rule='one or more computations under two different ambient conditions'),
    Sub('settings_cv', lambda: setting_cases(slow=True), run_settings, n=40, shards=16,
        rule='a selection by cross-validation or alignment under two different ambient conditions'),
    Sub('threads', thread_cases, run_threads, n=600,
        rule='two or more computations at the same time'),
    Sub('processes', process_cases, run_processes, n=16, shards=8,
        rule='four or more computations repeated in another process'),
]
