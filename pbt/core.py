"""Runner: generated cases -> oracle -> shrunk replay file + evidence.

A property module defines ``SUBS``: a list of :class:`Sub`, each with a Hypothesis strategy
producing JSON-serialisable cases and a ``run(case, ctx)`` that executes the case against the code
in /repo and raises :class:`Violation` when the oracle disagrees.  Everything a run does is a
function of the code and VERIF_SEED.
"""
import collections
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))
SHRINK = os.environ.get('VERIF_SHRINK', '1') != '0'
PKG = os.path.join(REPO, 'kernelmethods') + os.sep
QUICK = 2  # multiples of Sub.n in the quick tier


class Violation(Exception):
    """The code under test disagrees with the oracle."""


class HarnessError(Exception):
    """Something is wrong with the harness itself."""


class Ctx:
    """Per-case bookkeeping: labels for the distribution, and non-triviality."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def interesting(self, flag=True):
        if flag:
            self.nontrivial = True


class Sub:
    """One generated check contributing to a property."""

    def __init__(self, name, strategy, run, n, rule, thorough=12, shards=None):
        self.name = name
        self.strategy = strategy  # zero-arg callable returning a strategy
        self.run = run
        self.n = n
        self.rule = rule
        self.thorough = thorough
        self.shards = shards


def setup_import():
    """Import the package from REPO's working tree, never from stale bytecode."""
    scratch = tempfile.mkdtemp(prefix='kmverif-')
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, 'pyc')
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import hypothesis.configuration
    hypothesis.configuration.set_hypothesis_home_dir(os.path.join(scratch, 'hyp'))
    import kernelmethods
    if not os.path.realpath(kernelmethods.__file__).startswith(PKG):
        raise HarnessError('kernelmethods imported from ' + kernelmethods.__file__)
    for mod in ('base', 'algorithms', 'categorical', 'config', 'numeric_kernels', 'operations',
                'ranking', 'sampling', 'utils'):
        importlib.import_module('kernelmethods.' + mod)
    return scratch


def classify(exc):
    """(is_violation, message) for an exception that escaped run()."""
    if isinstance(exc, Violation):
        return True, str(exc)
    if isinstance(exc, (HarnessError, MemoryError, KeyboardInterrupt, ImportError)):
        return False, repr(exc)
    frames = traceback.extract_tb(exc.__traceback__)
    where = ''.join(traceback.format_exception(exc)[-4:])[-1200:]
    if any(os.path.realpath(f.filename).startswith(PKG) for f in frames):
        return True, 'unexpected {} from the code under test: {}\n{}'.format(
            type(exc).__name__, str(exc)[:300], where)
    if isinstance(exc, (TypeError, AttributeError, IndexError, ValueError, KeyError,
                        AssertionError, ArithmeticError)):
        return True, 'unusable result of the code under test: {}: {}\n{}'.format(
            type(exc).__name__, str(exc)[:300], where)
    return False, repr(exc) + '\n' + where


def run_case(sub, case):
    """Execute one case; returns its Ctx, or raises."""
    import numpy as np
    ctx = Ctx()
    np.random.seed(20240229)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        sub.run(case, ctx)
    return ctx


def canon(case):
    return json.dumps(case, sort_keys=True)


def derive_seed(*parts):
    digest = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(digest[:8], 'big')


def load_prop(pid):
    return importlib.import_module('pbt.props.' + pid.lower())


def run_task(pid, sub_name, shard, n, seed, deadline):
    """Worker: one shard of one sub-check. Returns a plain dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 25

    sub = next(s for s in load_prop(pid).SUBS if s.name == sub_name)
    out = dict(sub=sub_name, shard=shard, evaluations=0, skipped=0, nontrivial=0,
               hashes=set(), labels=collections.Counter(), samples=[], fail=None, error=None)
    recent = collections.deque(maxlen=100)
    st = dict(fail=None, first=None)

    def inner(case):
        if st['fail'] is None and time.time() > deadline:
            out['skipped'] += 1
            return
        key = canon(case)
        if st['fail'] is None:
            recent.append(case)
        try:
            ctx = run_case(sub, case)
        except hypothesis.errors.HypothesisException:
            raise
        except Exception as exc:
            bad, msg = classify(exc)
            if not bad:
                out['error'] = msg
                raise HarnessError(msg)
            if st['fail'] is None:
                st['first'] = list(recent)
            st['fail'] = (case, msg)
            raise Violation(msg) from None
        if st['fail'] is not None:
            return
        out['evaluations'] += 1
        for lab in set(ctx.labels):
            out['labels'][lab] += 1
        if ctx.nontrivial:
            out['nontrivial'] += 1
            out['hashes'].add(hashlib.md5(key.encode()).digest())
            if len(out['samples']) < 2 and len(key) < 1500 and out['nontrivial'] % 7 == 3:
                out['samples'].append(case)

    test = given(sub.strategy())(inner)
    test = settings(max_examples=n, database=None, deadline=None,
                    phases=(Phase.generate, Phase.shrink)[:2 if SHRINK else 1],
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    verbosity=hypothesis.Verbosity.quiet, print_blob=False)(test)
    test = hypothesis.seed(derive_seed(seed, pid, sub_name, shard))(test)
    try:
        test()
    except BaseException as exc:  # Violation, Flaky*, HarnessError ...
        if out['error'] is None and st['fail'] is not None:
            case, msg = st['fail']
            flaky = not isinstance(exc, Violation)
            out['fail'] = dict(case=case, message=msg, history_dependent=flaky,
                               preceding=st['first'] if flaky else [])
        elif out['error'] is None:
            out['error'] = ''.join(traceback.format_exception(exc))[-3000:]
    if not out['samples'] and recent:
        short = [c for c in recent if len(canon(c)) < 4000]
        out['samples'] = short[:1]
    return out


def write_replay(pid, res):
    d = os.environ.get('VERIF_REPLAY', os.path.join(VERIF, 'replay'))
    os.makedirs(d, exist_ok=True)
    fail = res['fail']
    body = dict(property=pid, sub=res['sub'], case=fail['case'], message=fail['message'],
                history_dependent=fail['history_dependent'], preceding=fail['preceding'],
                how='/opt/venv/bin/python check.py --replay <this file>')
    name = '{}-{}-{}.json'.format(pid, res['sub'],
                                  hashlib.md5(canon(fail['case']).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as fh:
        json.dump(body, fh, indent=1)
    return path


def replay(path):
    body = json.load(open(path))
    sub = next(s for s in load_prop(body['property']).SUBS if s.name == body['sub'])
    cases = body['preceding'] or [body['case']]
    for case in cases:
        try:
            run_case(sub, case)
        except Exception as exc:
            bad, msg = classify(exc)
            if bad:
                print(msg)
                print('VIOLATION property={} replay={}'.format(body['property'], path))
                return 1
            print('harness error: ' + msg)
            return 2
    print('replay passed: the recorded case does not violate {}'.format(body['property']))
    return 0


def run_property(pid, tier, seed, only=None):
    t0 = time.time()
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    procs = int(os.environ.get('VERIF_PROCS', str(max(2, os.cpu_count() or 2))))
    budget = float(os.environ.get('VERIF_BUDGET', '300' if tier == 'quick' else '1200'))
    mod = load_prop(pid)
    subs = [s for s in mod.SUBS if only is None or s.name in only]

    tasks = []
    for s in subs:
        total = max(4, int(s.n * scale * (QUICK if tier == 'quick' else s.thorough)))
        shards = s.shards or min(8, max(1, total // 25))
        shards = max(1, min(shards, total))
        for k in range(shards):
            tasks.append((s.name, k, -(-total // shards)))
    # interleave sub-checks, so that no sub-check starves under the time budget
    tasks.sort(key=lambda t: (t[1], t[0]))

    deadline = t0 + budget
    results, failure, error = [], None, None
    pool = cf.ProcessPoolExecutor(max_workers=procs, mp_context=mp.get_context('fork'))
    futs = [pool.submit(run_task, pid, name, k, n, seed, deadline) for name, k, n in tasks]
    try:
        for f in cf.as_completed(futs, timeout=budget + 240):
            r = f.result()
            results.append(r)
            if r['fail']:
                failure = r
                break
            if r['error'] and error is None:
                error = r
    except cf.TimeoutError as exc:
        # e.g. a solver that does not terminate: those cases count as not explored
        if len(results) < 0.75 * len(tasks):
            error = error or dict(sub='?', error='pool: ' + repr(exc))
        print('{} of {} shards did not finish in time, not explored'.format(
            len(tasks) - len(results), len(tasks)))
    except cf.process.BrokenProcessPool as exc:
        error = error or dict(sub='?', error='pool: ' + repr(exc))
    for f in futs:
        f.cancel()
    for p in list((pool._processes or {}).values()):
        p.kill()
    pool.shutdown(wait=False, cancel_futures=True)

    wall = time.time() - t0
    write_evidence(pid, tier, seed, mod, subs, results, failure, wall, budget)
    ev = sum(r['evaluations'] for r in results)
    nt = sum(r['nontrivial'] for r in results)
    print('{} tier={} seed={} cases={} non-trivial={} wall={:.1f}s'.format(
        pid, tier, seed, ev, nt, wall))
    for line in open_findings(pid):
        print('KNOWN-FINDING: ' + line)
    if failure:
        path = write_replay(pid, failure)
        print('sub-check {}: {}'.format(failure['sub'], failure['fail']['message']))
        print('shrunk case: ' + canon(failure['fail']['case'])[:2000])
        print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    if error:
        print('HARNESS ERROR in {}: {}'.format(error['sub'], error['error']))
        return 2
    if ev == 0:
        print('HARNESS ERROR: nothing was evaluated')
        return 2
    return 0


def open_findings(pid):
    path = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(path):
        return []
    key = 'open: property={} '.format(pid)
    return [ln[len('open: '):].strip() for ln in open(path) if ln.startswith(key)]


def write_evidence(pid, tier, seed, mod, subs, results, failure, wall, budget):
    per = {}
    samples = []
    for s in subs:
        rs = [r for r in results if r['sub'] == s.name]
        labels = collections.Counter()
        hashes = set()
        for r in rs:
            labels.update(r['labels'])
            hashes |= r['hashes']
        per[s.name] = dict(evaluations=sum(r['evaluations'] for r in rs),
                           distinct_nontrivial=len(hashes),
                           skipped_by_time_budget=sum(r['skipped'] for r in rs),
                           rule=s.rule, labels=dict(labels.most_common(40)))
        got = [c for r in rs for c in r['samples']][:2]
        samples.extend(dict(sub=s.name, case=c) for c in got)
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(
                  evaluations=sum(p['evaluations'] for p in per.values()),
                  distinct_nontrivial=sum(p['distinct_nontrivial'] for p in per.values()),
                  rule='; '.join('{}: {}'.format(s.name, s.rule) for s in subs),
                  samples=samples[:24], sub_checks=per,
                  oracle=getattr(mod, 'ORACLE', (mod.__doc__ or '').strip())),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  'sampled, not exhaustive: absence of violations beyond the generated cases is '
                  'not established', 'numpy, scipy and scikit-learn are trusted'],
              wall_s=round(wall, 2), violations=1 if failure else 0)
    d = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.{}.tmp'.format(pid))
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(d, pid + '.json'))


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--sub', action='append')
    ap.add_argument('--self-test', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args(argv)
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = derive_seed(os.environ['VERIF_SEED'])
    scratch = None
    try:
        scratch = setup_import()
        if a.self_test:  # everything needed can be imported
            d = os.path.join(VERIF, 'pbt', 'props')
            for f in sorted(os.listdir(d)):
                if f.startswith('c') and f.endswith('.py'):
                    load_prop(f[:-3])
            print('ok')
            return 0
        if a.replay:
            return replay(a.replay)
        return run_property(a.property.upper(), a.tier, seed, a.sub)
    except Exception:
        traceback.print_exc()
        print('HARNESS ERROR')
        return 2
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)
