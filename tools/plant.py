"""Builds and validates planted changes.

python3 tools/plant.py DEFS.py [id ...]      DEFS.py defines BUGS, a list of dicts:
    id, property, file, edits [(old, new), ...], needs, breaks, demo (python source)
For each: scratch copy of /repo, edits, repository tests, demo with and without the change, and the
quick check of its property; with --keep the folder seeded/<id>/ is (re)written.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True)
    return p.returncode, p.stdout


def one(bug, keep, tests):
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        for f, old, new in bug['edits']:
            path = os.path.join(repo, 'kernelmethods', f)
            s = open(path).read()
            if s.count(old) != 1:
                return bug['id'], 'BAD EDIT: {!r} occurs {} times'.format(old, s.count(old))
            open(path, 'w').write(s.replace(old, new))
        patch = sh(['git', 'diff'], repo)[1]
        out = []
        env = dict(PYTHONPATH=repo + ':/opt/vp/plugins', VP_SEED='1', PYTHONHASHSEED='0')
        if tests:
            rc, txt = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'vp_seed',
                          '--hypothesis-seed=1'], repo, dict(env, HYPOTHESIS_STORAGE_DIRECTORY=tmp))
            out.append('tests ' + ('pass' if rc == 0 else 'FAIL ' + txt.strip()[-300:]))
        if 'demo' in bug:
            d = os.path.join(tmp, 'demo')
            os.makedirs(d)
            open(d + '/demo.py', 'w').write(bug['demo'].lstrip())
            open(d + '/demo.sh', 'w').write(DEMO_SH)
            a = sh(['bash', d + '/demo.sh'], '/repo')
            b = sh(['bash', d + '/demo.sh'], repo)
            out.append('demo {}/{}'.format(a[0], b[0]) + ('' if a[0] == 0 else a[1][-300:]))
            if keep:
                t = os.path.join(V, 'seeded', bug['id'])
                shutil.rmtree(t, ignore_errors=True)
                shutil.copytree(d, t)
                open(t + '/patch.diff', 'w').write(patch)
                json.dump(dict(property=bug['property'], needs=bug['needs'],
                               what_it_breaks=bug['breaks']),
                          open(t + '/meta.json', 'w'), indent=1)
        rc, txt = sh([PY, 'check.py', bug['property']], V,
                     dict(VERIF_REPO=repo, VERIF_EVIDENCE=tmp + '/ev', VERIF_REPLAY=tmp + '/rp',
                          VERIF_PROCS='4'))
        last = [ln for ln in txt.splitlines() if ln.startswith('sub-check') or 'ERROR' in ln]
        out.append({0: 'MISSED', 1: 'caught'}.get(rc, 'exit %s' % rc) + ' by ' + bug['property']
                   + ' ' + ' '.join(last)[:160])
        return bug['id'], ' | '.join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    bugs = []
    for f in [a for a in args if a.endswith('.py')]:
        bugs += runpy.run_path(f)['BUGS']
    ids = [a for a in args if not a.endswith('.py')]
    if ids:
        bugs = [b for b in bugs if b['id'] in ids]
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        for i, msg in ex.map(lambda b: one(b, '--keep' in sys.argv, '--no-tests' not in sys.argv),
                             bugs):
            print(i, ':', msg, flush=True)


main()
