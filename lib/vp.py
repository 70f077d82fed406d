"""Common machinery: run TLC, replay TLC's behaviours into the real code, judge, report.

The pipeline of every check:
  1. TLC explores the TLA+ module of the area (specs/<Area>.tla), checking its invariants in every state,
     and writes every explored behaviour with the outcome the specification predicts (CSVWrite of ToJson).
     In `docs` mode the behaviours are read from a file written by the area's seeded generator (large inputs),
     in `mc` mode TLC enumerates them itself within the constants of the run.
  2. Each behaviour is rendered to the real input (file text, API calls), executed by the real code in /repo,
     projected back to the specification's vocabulary and compared with the prediction.
"""
import contextlib
import hashlib
import io
import json
import logging
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPECS = os.path.join(VERIF, 'specs')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)
logging.raiseExceptions = False
warnings.simplefilter('ignore')


PERIODIC = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd '
            'In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np '
            'Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn').split()


class Machinery(Exception):
    """The machinery itself failed (never a statement about the code under test)."""


# ----------------------------------------------------------------------------------------------- TLC

def tlc(spec, cfg, env=None, timeout=600, workers=None, heap='6g', simulate=None, depth=None, seed=None):
    """Run TLC on specs/<spec>.tla with the configuration text `cfg`; return measured counts and emitted records."""
    work = tempfile.mkdtemp(prefix='vp-tlc-')
    try:
        cfgfile = os.path.join(work, 'run.cfg')
        with open(cfgfile, 'w') as handle:
            handle.write(cfg)
        out = os.path.join(work, 'out.ndjson')
        environ = dict(os.environ)
        environ['OUT'] = out
        environ.update(env or {})
        for name in os.listdir(SPECS):
            if name.endswith('.tla'):
                shutil.copy(os.path.join(SPECS, name), work)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + work, '-cp', JAR, 'tlc2.TLC', '-deadlock',
               '-metadir', os.path.join(work, 'meta'), '-workers', str(workers or min(8, os.cpu_count() or 1)),
               '-config', cfgfile]
        if simulate:
            cmd += ['-simulate', f'num={simulate}', '-depth', str(depth or 50), '-seed', str(seed or 1)]
        cmd.append(os.path.join(work, spec + '.tla'))
        began = time.time()
        try:
            proc = subprocess.run(cmd, env=environ, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                  timeout=timeout, text=True)
        except subprocess.TimeoutExpired as exc:
            raise Machinery(f'TLC timed out on {spec}') from exc
        text = proc.stdout
        if proc.returncode != 0 or 'Error:' in text:
            raise Machinery(f'TLC failed on {spec} (exit {proc.returncode})\n' + text[-6000:])
        match = re.search(r'(\d+) states generated, (\d+) distinct states found', text)
        if not match:
            match = re.search(r'The number of states generated: (\d+)', text)
            states = trans = int(match.group(1)) if match else 0
        else:
            trans, states = int(match.group(1)), int(match.group(2))
        records = []
        if os.path.exists(out):
            with open(out) as handle:
                for line in handle:
                    line = line.strip()
                    if not line:
                        continue
                    try:
                        rec = json.loads(line)
                        records.append(json.loads(rec) if isinstance(rec, str) else rec)
                    except ValueError:
                        # two TLC workers interleaved lines longer than the writer's buffer
                        if workers == 1:
                            raise
                        return tlc(spec, cfg, env, timeout, 1, heap, simulate, depth, seed)
        for name in os.listdir(work):
            if name.startswith('out.ndjson.'):
                with open(os.path.join(work, name)) as handle:
                    records.append(json.loads(handle.readline()))
        return {'states': states, 'transitions': trans, 'records': records, 'wall': time.time() - began, 'text': text}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tlc_docs(spec, docs, cfg, timeout=600, **kwargs):
    """Let the specification predict the outcome of each document in `docs` (list of JSON values)."""
    handle, path = tempfile.mkstemp(prefix='vp-docs-', suffix='.ndjson')
    try:
        with os.fdopen(handle, 'w') as out:
            for doc in docs:
                out.write(json.dumps(doc) + '\n')
        res = tlc(spec, cfg, env={'DOCS': path}, timeout=timeout, **kwargs)
    finally:
        os.unlink(path)
    if len(res['records']) != len(docs):
        raise Machinery(f'{spec}: {len(docs)} documents but {len(res["records"])} predictions')
    res['records'].sort(key=lambda r: r['src'])
    return res


# ----------------------------------------------------------------------------- running the real code

class Hang(BaseException):
    """The real code did not return in time."""


def _alarm(signum, frame):
    raise Hang()


def call(func, *args, **kwargs):
    """Call the real code; the verdict is total: ('ok', value) | ('exit', code) | ('exc', class name, text)."""
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            return ('ok', func(*args, **kwargs))
    except Hang:
        raise
    except SystemExit as exc:
        return ('exit', exc.code)
    except BaseException as exc:  # pylint: disable=broad-except
        return ('exc', type(exc).__name__, str(exc)[:200])


_JUDGE = None


def _init_worker(base):
    signal.signal(signal.SIGALRM, _alarm)
    devnull = open(os.devnull, 'w')
    sys.stderr = devnull
    scratch = tempfile.mkdtemp(prefix='w', dir=base)
    os.chdir(scratch)


def _run_one(item):
    idx, case = item
    signal.alarm(60)
    try:
        res = _JUDGE(case)
    except Hang:
        res = {'bad': 'the code under test did not return within 60 s'}
    except Machinery as exc:
        res = {'machinery': str(exc)}
    except BaseException:  # pylint: disable=broad-except
        # never happens on the unchanged tree: the code under test returned something outside its vocabulary
        res = {'bad': 'the result could not be interpreted: ' + traceback.format_exc()[-1500:]}
    finally:
        signal.alarm(0)
    return idx, res


class Check:
    """Collects what one check explored and decided, and reports it."""

    def __init__(self, pid, replay=None):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.thorough = self.tier == 'thorough'
        self.began = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.known = {}
        self.notes = {}
        self.groups = {}
        self.assumptions = []
        self.replay = replay
        self.known_table = load_known()
        self.exhaustive = []

    def rng(self, *salt):
        """A generator that depends on the seed, the property and `salt` only."""
        digest = hashlib.sha256(repr((self.seed, self.pid) + salt).encode()).digest()
        return random.Random(int.from_bytes(digest[:8], 'big'))

    def add_tlc(self, res, name, exhaustive=False):
        """Account for one TLC run."""
        self.states += res['states']
        self.transitions += res['transitions']
        self.groups[name] = {'tlc_states': res['states'], 'tlc_transitions': res['transitions'],
                             'behaviours': len(res['records']), 'exhaustive': exhaustive,
                             'tlc_wall_s': round(res['wall'], 1)}

    def run(self, name, cases, judge, chunk=16):
        """Run `judge` on every case in worker processes. judge returns {} or {'bad': text, ...} or {'known': id}."""
        global _JUDGE  # pylint: disable=global-statement
        if self.replay is not None:
            if self.replay.get('group') != name:
                return
            cases = [self.replay['case']]
        _JUDGE = judge
        cases = list(cases)
        base = tempfile.mkdtemp(prefix='vp-run-')
        began = time.time()
        try:
            ctx = multiprocessing.get_context('fork')
            with ctx.Pool(min(8, os.cpu_count() or 1), initializer=_init_worker, initargs=(base,)) as pool:
                results = pool.imap_unordered(_run_one, list(enumerate(cases)), chunksize=chunk)
                nontrivial = 0
                for idx, res in results:
                    if 'machinery' in res:
                        raise Machinery(f'{name} case {idx}: {res["machinery"]}\n{json.dumps(cases[idx], default=str)[:2000]}')
                    nontrivial += 1 if res.get('nontrivial', True) else 0
                    self.traces += res.get('traces', 1)
                    for key, val in res.get('count', {}).items():
                        self.notes[key] = self.notes.get(key, 0) + val
                    if res.get('known'):
                        self.known.setdefault(res['known'], (cases[idx], res.get('bad', '')))
                    elif res.get('bad'):
                        self.violations.append((name, cases[idx], res['bad'], res.get('input')))
                    elif res.get('input') is not None and len([s for s in self.samples if s['group'] == name]) < 2 \
                            and nontrivial > 20:
                        self.samples.append({'group': name, 'input': str(res['input'])[:1500]})
        finally:
            shutil.rmtree(base, ignore_errors=True)
        grp = self.groups.setdefault(name, {})
        grp['replayed'] = len(cases)
        grp['nontrivial'] = nontrivial
        grp['replay_wall_s'] = round(time.time() - began, 1)
        if not [s for s in self.samples if s['group'] == name] and cases:
            self.samples.append({'group': name, 'input': json.dumps(cases[len(cases) // 2], default=str)[:1500]})

    def finish(self):
        """Write the evidence file, print the verdict and return the exit status."""
        for pid in sorted(self.known):
            case, text = self.known[pid]
            print(f'KNOWN-FINDING: property={self.pid} {self.known_table.get(pid, pid)}')
        evidence = {
            'property': self.pid, 'tier': 'thorough' if self.thorough else 'quick', 'seed': self.seed,
            'level': 'model_checking',
            'coverage': {'states': self.states, 'transitions': self.transitions,
                         'traces_validated_against_impl': self.traces, 'samples': self.samples or ['none'],
                         'groups': self.groups, 'action_counts': self.notes},
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.began, 2),
            'violations': len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as handle:
            json.dump(evidence, handle, indent=1, default=str)
        print(f'{self.pid}: {self.states} spec states, {self.transitions} transitions, {self.traces} behaviours replayed, '
              f'{len(self.violations)} mismatches, {time.time() - self.began:.1f} s')
        if not self.violations:
            return 0
        folder = os.path.join(VERIF, 'replays')
        os.makedirs(folder, exist_ok=True)
        # shortest failing case first: the easiest to read
        self.violations.sort(key=lambda v: len(json.dumps(v[1], default=str)))
        path = os.path.join(folder, f'{self.pid}.json')
        group, case, bad, text = self.violations[0]
        with open(path, 'w') as handle:
            json.dump({'property': self.pid, 'group': group, 'seed': self.seed, 'tier': self.tier, 'failed': bad,
                       'input': text, 'case': case,
                       'others': [v[2] for v in self.violations[1:20]]}, handle, indent=1, default=str)
        print(f'first mismatch: {bad}')
        if text is not None:
            print('input:\n' + str(text)[:3000])
        print(f'VIOLATION property={self.pid} replay={path}')
        return 1


def load_known():
    """Known findings recorded under /verif (never written at run time)."""
    table = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as handle:
            for line in handle:
                match = re.match(r'^finding: id=(\S+) (.*)$', line.strip())
                if match:
                    table[match.group(1)] = match.group(2)
    return table


# ---------------------------------------------------------------------------------------- comparison

def same(a, b, tol=1e-9):
    """Numbers equal within relative/absolute tolerance; None only equals None."""
    if a is None or b is None:
        return a is None and b is None
    try:
        a = float(a)
        b = float(b)
    except (TypeError, ValueError):
        return False
    if a != a or b != b:
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def deep(exp, obs, path='', tol=1e-9):
    """First difference between expected and observed plain data, or None. Floats with tolerance, rest exact."""
    if hasattr(obs, 'tolist') and not isinstance(obs, (str, bytes)):
        obs = obs.tolist()
    if isinstance(exp, dict):
        if not isinstance(obs, dict):
            return f'{path or "value"}: expected a dictionary, got {obs!r}'[:400]
        if set(exp) != set(obs):
            return f'{path or "value"}: expected keys {sorted(map(str, exp))}, got {sorted(map(str, obs))}'[:600]
        for key in exp:
            diff = deep(exp[key], obs[key], f'{path}[{key!r}]', tol)
            if diff:
                return diff
        return None
    if isinstance(exp, (list, tuple)):
        if not isinstance(obs, (list, tuple)):
            return f'{path or "value"}: expected {str(exp)[:150]}, got {str(obs)[:150]}'
        if len(exp) != len(obs):
            return f'{path or "value"}: expected {len(exp)} elements, got {len(obs)}: {str(exp)[:150]} / {str(obs)[:150]}'
        for i, (x, y) in enumerate(zip(exp, obs)):
            diff = deep(x, y, f'{path}[{i}]', tol)
            if diff:
                return diff
        return None
    if isinstance(exp, bool) or isinstance(obs, bool) or exp is None or obs is None or isinstance(exp, str):
        if type(obs).__name__ == 'bool_':
            obs = bool(obs)
        if isinstance(obs, str) and not type(obs) is str:  # numpy.str_
            obs = str(obs)
        return None if exp == obs and type(exp) is type(obs) else f'{path or "value"}: expected {exp!r}, got {obs!r}'[:300]
    if isinstance(exp, (int, float)):
        if isinstance(obs, str) or not same(exp, obs, tol):
            return f'{path or "value"}: expected {exp!r}, got {obs!r}'[:300]
        return None
    return None if exp == obs else f'{path or "value"}: expected {exp!r}, got {obs!r}'[:300]


class Values:
    """Distinct concrete numbers for the abstract value ids of one case."""

    def __init__(self, rng, decimals=6, span=90.0, positive=False):
        self.rng = rng
        self.table = {}
        self.used = set()
        self.decimals = decimals
        self.span = span
        self.positive = positive

    def num(self, ident):
        """The number that stands for `ident`."""
        if ident not in self.table:
            while True:
                val = round(self.rng.uniform(0.001 if self.positive else -self.span, self.span), self.decimals)
                if not self.positive and self.rng.random() < 0.04:
                    val = 0.0
                if val not in self.used and (val != 0 or not self.positive):
                    break
            self.used.add(val)
            self.table[ident] = val
        return self.table[ident]
