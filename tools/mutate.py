"""Development aid: systematic mutants of /repo/parsevasp/<file>; reports those that the stable tests and the checks both let through.

usage: mutate.py FILE [workers]        results in /tmp/mut/<file>.res (one JSON line per mutant)
"""
import ast
import contextlib
import hashlib
import io
import json
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {'incar.py': ['P01', 'P02'], 'poscar.py': ['P03', 'P04', 'P05', 'P29', 'P26', 'P28', 'P27'], 'kpoints.py': ['P06', 'P07', 'P29', 'P26'], 'stream.py': ['P08', 'P09'],
         'outcar.py': ['P10', 'P11', 'P12', 'P13'], 'doscar.py': ['P22'], 'eigenval.py': ['P23'], 'chgcar.py': ['P24'], 'potcar.py': ['P25'],
         'vasprun.py': ['P14', 'P15', 'P16', 'P17', 'P18', 'P20', 'P21', 'P19'],
         'utils.py': ['P01', 'P03', 'P06', 'P27', 'P26', 'P22', 'P23', 'P04', 'P07', 'P09', 'P02', 'P08', 'P29'], 'base.py': ['P01', 'P26', 'P04']}
TESTS = {'incar.py': 'tests/test_incar.py', 'poscar.py': 'tests/test_poscar.py', 'kpoints.py': 'tests/test_kpoints.py', 'outcar.py': 'tests/test_outcar.py'}
SWAP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '*'}


def mutants(text):
    """(line, description, new text) of every mutant."""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    raw = text.encode()
    parents = {}
    for node in ast.walk(tree):
        for kid in ast.iter_child_nodes(node):
            parents[kid] = node

    def span(node):
        return starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset

    def src(node):
        a, b = span(node)
        return raw[a:b].decode()

    def docstring(node):
        return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)

    def noise(node):
        while node in parents:
            if isinstance(node, ast.Call) and 'logger' in src(node.func):
                return True
            if docstring(node):
                return True
            if isinstance(node, ast.Assign) and isinstance(parents[node], ast.ClassDef):
                return True
            if isinstance(node, (ast.Import, ast.ImportFrom, ast.JoinedStr)):
                return True
            if isinstance(node, ast.FunctionDef) and node.name in ('_fetch_method',):
                return True
            node = parents[node]
        return False

    out = []

    def put(node, new, what):
        a, b = span(node)
        out.append((node.lineno, f'{what}: {raw[a:b].decode()[:90]!r} -> {new[:90]!r}', (raw[:a] + new.encode() + raw[b:]).decode()))

    for node in ast.walk(tree):
        if not hasattr(node, 'lineno') or noise(node):
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op = SWAP.get(type(node.ops[0]))
            if op:
                put(node, f'({src(node.left)} {op} {src(node.comparators[0])})', 'cmp')
                if op in ('<', '<=', '>', '>='):
                    flip = {'<=': '>=', '<': '>', '>=': '<=', '>': '<'}[op]
                    put(node, f'({src(node.left)} {flip} {src(node.comparators[0])})', 'cmp2')
        elif isinstance(node, ast.BoolOp):
            word = ' or ' if isinstance(node.op, ast.And) else ' and '
            put(node, '(' + word.join(f'({src(v)})' for v in node.values) + ')', 'bool')
            for i in range(len(node.values)):
                rest = [v for j, v in enumerate(node.values) if j != i]
                put(node, '(' + (' and ' if isinstance(node.op, ast.And) else ' or ').join(f'({src(v)})' for v in rest) + ')', f'drop{i}')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            put(node, f'({src(node.operand)})', 'not')
        elif isinstance(node, ast.Constant):
            if node.value is True or node.value is False:
                put(node, str(not node.value), 'const')
            elif isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
                put(node, repr(node.value + 1), 'const')
                if node.value not in (0,):
                    put(node, repr(node.value - 1), 'const')
            elif isinstance(node.value, str) and node.value and not isinstance(parents.get(node), (ast.Expr, ast.JoinedStr, ast.FormattedValue)):
                put(node, repr(node.value + 'X'), 'str')
        elif isinstance(node, ast.BinOp):
            op = OPS.get(type(node.op))
            if op and not (isinstance(node.op, ast.Add) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
                put(node, f'({src(node.left)} {op} {src(node.right)})', 'op')
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete)) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
            put(node, 'pass', 'stmt')
        elif isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            put(node, 'return None', 'ret')
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            put(node.test, 'True' if not isinstance(node, ast.While) else 'False', 'cond')
            if not isinstance(node, ast.While):
                put(node.test, 'False', 'cond')
        elif isinstance(node, (ast.Break, ast.Continue)):
            put(node, 'pass', 'stmt')
        elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            for part in (node.slice.lower, node.slice.upper):
                if part is not None:
                    put(part, '', 'slice')
    seen = set()
    for line, what, new in out:
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new, 'x', 'exec')
        except SyntaxError:
            continue
        yield line, what, new


def runner(repo, pids):
    """Run the checks in this process, stopping at the first violation. Prints the verdict."""
    sys.path.insert(0, VERIF + '/lib')
    import vp
    vp.REPO = repo
    sys.path[:] = [p for p in sys.path if p != '/repo']
    sys.path.insert(0, repo)
    real = vp.tlc
    cache = '/tmp/mut/cache'
    os.makedirs(cache, exist_ok=True)

    def tlc(spec, cfg, env=None, *args, **kwargs):
        docs = open(env['DOCS']).read() if env and 'DOCS' in env else ''
        more = {k: v for k, v in kwargs.items() if k in ('simulate', 'depth', 'seed')}
        more.update({k: v for k, v in (env or {}).items() if k != 'DOCS'})
        key = hashlib.sha256((open(f'{vp.SPECS}/{spec}.tla').read() + cfg + docs + repr(sorted(more.items()))).encode()).hexdigest()
        path = f'{cache}/{key}'
        if os.path.exists(path):
            return pickle.load(open(path, 'rb'))
        res = real(spec, cfg, env, *args, **kwargs)
        tmp = tempfile.mkstemp(dir=cache)[1]
        pickle.dump(res, open(tmp, 'wb'))
        os.replace(tmp, path)
        return res

    class Found(BaseException):
        pass

    def run(self, name, cases, judge, chunk=16):
        vp._JUDGE = judge
        cases = list(cases)
        order = list(range(len(cases)))
        random.Random(5).shuffle(order)
        for i in order if os.environ.get('VP_ALL') else order[:2500]:
            _, res = vp._run_one((i, cases[i]))
            if 'machinery' in res:
                raise Found('machinery ' + res['machinery'][:300])
            if res.get('bad') and not res.get('known'):
                raise Found(f'{name}: {res["bad"]}'[:300])

    vp.tlc = tlc
    vp.Check.run = run
    vp.Check.finish = lambda self: 0
    import importlib
    import signal
    signal.signal(signal.SIGALRM, vp._alarm)
    areas = {}
    text = open(VERIF + '/lib/main.py').read()
    exec(text[text.index('AREAS = {'):text.index('def main')], areas)
    scratch = tempfile.mkdtemp(prefix='w')
    os.chdir(scratch)
    out = sys.stdout
    sys.stderr = open(os.devnull, 'w')
    try:
        for pid in pids:
            try:
                sys.stdout = io.StringIO()
                mod = importlib.import_module(areas['AREAS'][pid])
                getattr(mod, 'check_' + pid)(vp.Check(pid))
            except Found as exc:
                out.write(f'KILLED {pid} {exc}\n')
                return
            except BaseException as exc:
                out.write(f'ERROR {pid} {type(exc).__name__} {str(exc)[:300]}\n')
                return
        out.write('SURVIVED\n')
    finally:
        sys.stdout = out
        os.chdir('/')
        shutil.rmtree(scratch)


def main():
    name = sys.argv[1]
    workers = int(sys.argv[2]) if len(sys.argv) > 2 else 8
    text = open(f'/repo/parsevasp/{name}').read()
    todo = list(mutants(text))
    if len(sys.argv) > 3:
        lo, hi = map(int, sys.argv[3].split('-'))
        todo = [t for t in todo if lo <= t[0] <= hi]
    if os.environ.get('MUT_SAMPLE'):
        todo = random.Random(7).sample(todo, min(len(todo), int(os.environ['MUT_SAMPLE'])))
    res = open(f'/tmp/mut/{name}.res', 'a')
    done = set()
    for line in open(f'/tmp/mut/{name}.res'):
        done.add(json.loads(line)['hash'])
    pool = []
    for i in range(workers):
        base = f'/tmp/mut/{name}.{i}'
        if os.path.exists(base):
            shutil.rmtree(base)
        shutil.copytree('/repo', base, symlinks=True)
        pool.append(base)
    print(len(todo), 'mutants', flush=True)
    env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')

    def one(item):
        line, what, new = item
        key = hashlib.sha256(new.encode()).hexdigest()[:16]
        if key in done:
            return
        base = pool.pop()
        try:
            with open(f'{base}/parsevasp/{name}', 'w') as out:
                out.write(new)
            rec = {'hash': key, 'line': line, 'what': what}
            for tests in ([TESTS[name], 'tests'] if name in TESTS else ['tests']):
                try:
                    code = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', tests], cwd=base,
                                          env=dict(env, PYTHONPATH=base), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode
                except subprocess.TimeoutExpired:
                    code = 99
                if code:
                    break
            rec['tests'] = code
            if code == 0:
                try:
                    proc = subprocess.run(['/opt/venv/bin/python', '-B', os.path.abspath(__file__), '--run', base] + PROPS[name], env=env,
                                          stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=1500)
                    rec['verdict'] = proc.stdout.strip().splitlines()[-1] if proc.stdout.strip() else f'NONE {proc.returncode}'
                except subprocess.TimeoutExpired:
                    rec['verdict'] = 'TIMEOUT'
            res.write(json.dumps(rec) + '\n')
            res.flush()
        finally:
            pool.append(base)

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(one, todo))
    for base in pool:
        shutil.rmtree(base)


def again(name, more):
    """Run the complete checks, and those named, on the survivors."""
    os.environ['VP_ALL'] = '1'
    with open(f'/repo/parsevasp/{name}') as handle:
        todo = {hashlib.sha256(new.encode()).hexdigest()[:16]: (line, what, new) for line, what, new in mutants(handle.read())}
    with open(f'/tmp/mut/{name}.res') as handle:
        recs = [json.loads(line) for line in handle]
    keys = [r['hash'] for r in recs if r['tests'] == 0 and not r['verdict'].startswith('KILLED') and r['hash'] in todo]
    pool = []
    for i in range(4):
        base = tempfile.mkdtemp(prefix='vp-again')
        shutil.copytree('/repo', base, symlinks=True, dirs_exist_ok=True)
        pool.append(base)
    env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')

    def one(key):
        base = pool.pop()
        try:
            line, what, new = todo[key]
            with open(f'{base}/parsevasp/{name}', 'w') as out:
                out.write(new)
            try:
                proc = subprocess.run(['/opt/venv/bin/python', '-B', os.path.abspath(__file__), '--run', base] + PROPS[name] + more, env=env,
                                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=3000)
                verdict = proc.stdout.strip().splitlines()[-1] if proc.stdout.strip() else f'NONE {proc.returncode}'
            except subprocess.TimeoutExpired:
                verdict = 'TIMEOUT'
            print(line, what[:110], '|', verdict[:110], flush=True)
        finally:
            pool.append(base)

    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, keys))
    for base in pool:
        shutil.rmtree(base)


if __name__ == '__main__':
    if sys.argv[1] == '--run':
        runner(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == '--again':
        again(sys.argv[2], sys.argv[3:])
    elif sys.argv[1] == '--count':
        print(len(list(mutants(open(f'/repo/parsevasp/{sys.argv[2]}').read()))))
    else:
        main()
