"""Development aid: turn /tmp/bugs/<id>.py descriptions into /verif/seeded/<id>, confirmed in a scratch copy, and run checks on them.

usage: seed.py make ID...      confirm (build, tests, demo both ways) and write seeded/ID
       seed.py run ID... [--all]   run the property's check (or all checks) on a scratch copy with the patch
A description defines PROP, EDITS = [(file, old, new)], NEEDS, BREAKS, DEMO (python source).
"""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
STABLE = json.load(open('/opt/vp/BASELINE.json'))
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -B "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
HEAD = '''"""Exits 0 when the property holds on the input below, 1 otherwise."""
import io
import logging
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
import numpy as np

'''


def scratch():
    """A copy of /repo without untracked leftovers of interest."""
    base = tempfile.mkdtemp(prefix='seed-')
    shutil.copytree(os.environ.get('SEED_REPO', '/repo'), base + '/repo', symlinks=True)
    subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=base + '/repo', check=True)
    return base


def demo(folder, repo):
    """Exit status of the demonstration."""
    return subprocess.run(['bash', os.path.join(folder, 'demo.sh')], cwd=repo, timeout=300,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def make(ident):
    spec = importlib.util.spec_from_file_location(ident, f'/tmp/bugs/{ident}.py')
    bug = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(bug)
    base = scratch()
    try:
        repo = base + '/repo'
        folder = os.path.join(base, 'seed')
        os.makedirs(folder)
        with open(folder + '/demo.sh', 'w') as out:
            out.write(DEMO_SH)
        with open(folder + '/demo.py', 'w') as out:
            out.write(HEAD + bug.DEMO.strip() + '\n')
        before = demo(folder, repo)
        if before.returncode:
            return f'{ident}: demo fails on the unchanged tree\n{before.stdout[-800:]}'
        for name, old, new in bug.EDITS:
            path = f'{repo}/parsevasp/{name}'
            text = open(path).read()
            if text.count(old) != 1:
                return f'{ident}: {text.count(old)} places for {old!r}'
            open(path, 'w').write(text.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE, text=True, check=True).stdout
        # the changed lines must be lines of the original repository
        for name in {e[0] for e in bug.EDITS}:
            gone = re.findall(r'^-(?!--)(.*)$', diff, re.M)
            orig = subprocess.run(['git', 'show', f'7c31b05:parsevasp/{name}'], cwd=repo, stdout=subprocess.PIPE, text=True, check=True).stdout
            lines = set(orig.splitlines())
            if not any(g in lines for g in gone):
                print(f'{ident}: WARNING no removed line of the original repository')
        after = demo(folder, repo)
        if after.returncode == 0:
            return f'{ident}: demo passes with the change'
        test = subprocess.run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=repo,
                              env=dict(os.environ, PYTHONPATH=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if test.returncode:
            return f'{ident}: tests fail\n{test.stdout[-700:]}'
        dest = os.path.join(SEEDED, ident)
        os.makedirs(dest, exist_ok=True)
        for name in ('demo.sh', 'demo.py'):
            shutil.copy(f'{folder}/{name}', dest)
        os.chmod(dest + '/demo.sh', 0o755)
        open(dest + '/patch.diff', 'w').write(diff)
        with open(dest + '/meta.json', 'w') as out:
            json.dump({'property': bug.PROP, 'needs': bug.NEEDS, 'what_it_breaks': bug.BREAKS}, out, indent=1)
            out.write('\n')
        return f'{ident}: ok'
    finally:
        shutil.rmtree(base)


def run(ident, everything=False):
    """Run checks on a scratch copy; the copy of the machinery looks at the copied repository."""
    meta = json.load(open(f'{SEEDED}/{ident}/meta.json'))
    base = scratch()
    try:
        repo = base + '/repo'
        subprocess.run(['git', 'apply', f'{SEEDED}/{ident}/patch.diff'], cwd=repo, check=True)
        for name in ('lib', 'specs'):
            shutil.copytree(f'{VERIF}/{name}', f'{base}/{name}')
        shutil.copy(f'{VERIF}/known_findings.txt', base)
        shutil.copy(f'{VERIF}/properties.jsonl', base)
        path = base + '/lib/vp.py'
        text = open(path).read()
        open(path, 'w').write(text.replace("REPO = '/repo'", f"REPO = '{repo}'"))
        pids = [meta['property']] if not everything else [json.loads(x)['id'] for x in open(VERIF + '/properties.jsonl')]
        res = []
        for pid in pids:
            env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
            proc = subprocess.run(['/opt/venv/bin/python', '-B', base + '/lib/main.py', pid], env=env, cwd=base, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            first = re.search(r'^first mismatch: (.*)$', proc.stdout, re.M)
            res.append(f'{pid}={proc.returncode}' + (f' [{first.group(1)[:150]}]' if first else '') + (proc.stdout[-300:] if proc.returncode > 1 else ''))
        return f'{ident} ({meta["property"]}): ' + ' '.join(r for r in res if everything is False or not r.endswith('=0'))
    finally:
        shutil.rmtree(base)


if __name__ == '__main__':
    names = [a for a in sys.argv[2:] if not a.startswith('--')]
    if sys.argv[1] == 'make':
        with ThreadPoolExecutor(4) as pool:
            for line in pool.map(make, names):
                print(line, flush=True)
    else:
        for name in names or sorted(os.listdir(SEEDED)):
            print(run(name, '--all' in sys.argv), flush=True)
