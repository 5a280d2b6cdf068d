"""Systematic mutants of /repo's package: which survive the repository's tests, and which of those
no check notices.

python3 tools/mutate.py list                      number of mutants per file
python3 tools/mutate.py run OUT.jsonl [file ...]  tests, then the checks at VERIF_SCALE (default .2)
Scratch copies only; JOBS processes.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
FILES = ('utils.py', 'operations.py', 'base.py', 'numeric_kernels.py', 'categorical.py',
         'sampling.py', 'ranking.py', 'algorithms.py')
ORDER = {
    'utils.py': 'C28 C02 C24 C01 C08 C11 C12 C14 C16 C21 C22',
    'operations.py': 'C08 C09 C10 C11 C17 C14 C16 C25 C29 C04',
    'base.py': 'C04 C03 C05 C06 C07 C12 C13 C14 C21 C22 C24 C25 C02 C08 C29 C23 C15',
    'numeric_kernels.py': 'C01 C02 C22 C29 C23 C11',
    'categorical.py': 'C23 C02 C22 C29 C11',
    'sampling.py': 'C15 C17 C22 C16 C29 C19',
    'ranking.py': 'C16 C29 C18 C19',
    'algorithms.py': 'C18 C20 C29 C26 C19 C25',
}
ALL = ['C%02d' % i for i in range(1, 32)]
CMP = {ast.Lt: (ast.LtE, ast.GtE), ast.LtE: (ast.Lt, ast.Gt), ast.Gt: (ast.GtE, ast.LtE),
       ast.GtE: (ast.Gt, ast.Lt), ast.Eq: (ast.NotEq,), ast.NotEq: (ast.Eq,),
       ast.Is: (ast.IsNot,), ast.IsNot: (ast.Is,), ast.In: (ast.NotIn,), ast.NotIn: (ast.In,)}
BIN = {ast.Add: (ast.Sub,), ast.Sub: (ast.Add,), ast.Mult: (ast.Div, ast.Add),
       ast.Div: (ast.Mult,), ast.Pow: (ast.Mult,), ast.FloorDiv: (ast.Mult,)}


def mutants(src):
    """(description, source) for each mutant."""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    parents = {c: n for n in nodes for c in ast.iter_child_nodes(n)}
    out = []

    def emit(i, what, change):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))
        par = {c: q for q in n for c in ast.iter_child_nodes(q)}
        change(n[i], par)
        ast.fix_missing_locations(t)
        try:
            s = ast.unparse(t)
            compile(s, 'm', 'exec')
        except Exception:
            return
        out.append(('line {}: {}'.format(getattr(nodes[i], 'lineno', 0), what), s))

    def replace(par, old, new):
        p = par[old]
        for f, v in ast.iter_fields(p):
            if v is old:
                setattr(p, f, new)
            elif isinstance(v, list) and old in v:
                v[v.index(old)] = new

    def in_message(n):
        while n in parents:
            n = parents[n]
            if isinstance(n, (ast.Raise, ast.JoinedStr)):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
                    'warn', 'print'):
                return True
        return False

    for i, n in enumerate(nodes):
        text = ast.unparse(n)[:70] if hasattr(n, 'lineno') else ''
        if in_message(n):
            continue
        if isinstance(n, ast.Compare):
            for op in CMP.get(type(n.ops[0]), ()):
                emit(i, 'cmp {} in {}'.format(op.__name__, text),
                     lambda m, par, op=op: m.ops.__setitem__(0, op()))
        elif isinstance(n, ast.BinOp):
            for op in BIN.get(type(n.op), ()):
                emit(i, 'bin {} in {}'.format(op.__name__, text),
                     lambda m, par, op=op: setattr(m, 'op', op()))
        elif isinstance(n, ast.BoolOp):
            emit(i, 'bool swap ' + text, lambda m, par: setattr(
                m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                emit(i, 'bool drop {} of {}'.format(k, text),
                     lambda m, par, k=k: m.values.pop(k))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            emit(i, 'unary removed ' + text, lambda m, par: replace(par, m, m.operand))
        elif isinstance(n, ast.Constant) and not isinstance(parents.get(n), ast.Expr):
            v = n.value
            if isinstance(v, bool):
                new = [not v]
            elif isinstance(v, int):
                new = [v + 1, v - 1] if abs(v) < 1000 else []
            elif isinstance(v, float):
                new = [v * 2 if v else 1.0]
            elif v is None:
                new = []
            elif isinstance(v, str) and v:
                new = [v + 'x']
            else:
                new = []
            for w in new:
                emit(i, 'const {!r} -> {!r} in {}'.format(
                    v, w, ast.unparse(parents[n])[:60] if hasattr(parents[n], 'lineno') else ''),
                    lambda m, par, w=w: setattr(m, 'value', w))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            emit(i, 'cond negated ' + text, lambda m, par: setattr(
                m, 'test', ast.UnaryOp(ast.Not(), m.test)))
            emit(i, 'cond False ' + text, lambda m, par: setattr(m, 'test', ast.Constant(False)))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            emit(i, 'deleted ' + text, lambda m, par: replace(par, m, ast.Pass()))
        elif isinstance(n, ast.Return) and n.value is not None:
            emit(i, 'return None ' + text, lambda m, par: setattr(m, 'value', ast.Constant(None)))
        elif isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                emit(i, 'keyword {} dropped in {}'.format(n.keywords[k].arg, text),
                     lambda m, par, k=k: m.keywords.pop(k))
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                emit(i, 'args swapped ' + text, lambda m, par: m.args.reverse())
            if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
                emit(i, 'call replaced by its argument ' + text,
                     lambda m, par: replace(par, m, m.args[0]))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and \
                n.attr in ('full', 'min', 'max', 'sum', 'mean', 'any', 'all', 'T'):
            other = {'full': 'centered', 'min': 'max', 'max': 'min', 'sum': 'mean', 'mean': 'sum',
                     'any': 'all', 'all': 'any'}.get(n.attr)
            if other:
                emit(i, 'attribute {} for {}'.format(other, text),
                     lambda m, par, o=other: setattr(m, 'attr', o))
    seen, res = {ast.unparse(tree)}, []
    for d, s in out:
        if s not in seen:
            seen.add(s)
            res.append((d, s))
    return res


def sh(cmd, cwd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                                                  OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
                                                  **env),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as exc:
        return 'timeout', ''


def seek(order, repo, tmp, scale, res):
    for c in order:
        rc, txt = sh([PY, 'check.py', c], V, dict(
            VERIF_REPO=repo, VERIF_EVIDENCE=tmp + '/ev', VERIF_REPLAY=tmp + '/rp', VERIF_SHRINK='0',
            VERIF_PROCS='1', VERIF_SCALE=str(scale)), 600)
        if rc == 1:
            res['by'] = c
            res['scale'] = scale
            res['how'] = [ln for ln in txt.splitlines() if ln.startswith('sub-check')][:1]
            return True
        if rc != 0:
            res.setdefault('odd', []).append([c, rc, txt[-300:]])
    return False


def judge(job):
    f, what, src, scale, thorough_order = job
    tmp = tempfile.mkdtemp(prefix='mut-')
    try:
        repo = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git', 'docs'))
        open(os.path.join(repo, 'kernelmethods', f), 'w').write(src)
        env = dict(PYTHONPATH=repo + ':/opt/vp/plugins', VP_SEED='1', PYTHONHASHSEED='0',
                   HYPOTHESIS_STORAGE_DIRECTORY=tmp)
        order = ORDER[f].split()
        res = dict(file=f, what=what, tests=None, by=None)
        if seek(order, repo, tmp, scale, res):
            return res
        rc, txt = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'vp_seed',
                      '--hypothesis-seed=1'], repo, env, 120)
        res['tests'] = rc
        if rc == 0 and thorough_order:
            seek(order + [c for c in ALL if c not in order], repo, tmp, 1.0, res)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    files = [a for a in sys.argv[3:]] or FILES
    ms = [(f, d, s) for f in files
          for d, s in mutants(open('/repo/kernelmethods/' + f).read())]
    if sys.argv[1] == 'list':
        for f in files:
            print(f, sum(m[0] == f for m in ms))
        return
    out = sys.argv[2]
    done = set()
    if os.path.exists(out):
        done = {(d['file'], d['what']) for d in map(json.loads, open(out))}
    random.Random(1).shuffle(ms)
    jobs = [(f, d, s, os.environ.get('SCALE', '0.2'),
             'FULL' in os.environ) for f, d, s in ms
            if (f, d) not in done]
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '7'))) as ex, open(out, 'a') as fh:
        for r in (q.result() for q in as_completed([ex.submit(judge, j) for j in jobs])):
            fh.write(json.dumps(r) + '\n')
            fh.flush()


main()
