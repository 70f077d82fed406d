"""P32: messages, sites and k-points as parts handled directly. Specification: Parts.tla."""
import random
import re

import numpy as np

import vp

FIELDS = {'message': ['shortname', 'kind', 'regex', 'message', 'suggestion', 'location', 'recover', 'inverse'],
          'site': ['specie', 'position', 'selective', 'velocities', 'predictors', 'direct'],
          'point': ['point', 'weight', 'direct']}
LATER = {'message': FIELDS['message'], 'site': ['position', 'velocities', 'direct'], 'point': []}
GOOD = {'shortname': ['text', 'empty'], 'message': ['text', 'empty'], 'kind': ['error', 'warning'], 'regex': ['text', 'compiled'],
        'suggestion': ['text', 'none', 'empty'], 'location': ['stdout', 'stderr'], 'recover': ['true', 'false'], 'inverse': ['true', 'false'],
        'direct': ['true', 'false'], 'position': ['array'], 'point': ['array'], 'specie': ['name'], 'selective': ['flags'],
        'velocities': ['array', 'none'], 'predictors': ['array', 'none'], 'weight': ['number', 'none']}
BAD = {'shortname': ['number', 'list', 'nothing', 'bytes'], 'message': ['number', 'list', 'nothing', 'bytes'],
       'kind': ['word', 'number', 'nothing', 'list'], 'regex': ['broken'], 'suggestion': ['number', 'list', 'bytes'],
       'location': ['word', 'number', 'nothing'], 'recover': ['number', 'word', 'nothing'], 'inverse': ['number', 'word', 'nothing']}
OPTIONAL = ['suggestion', 'location', 'recover', 'inverse', 'selective', 'velocities', 'predictors']


class World:
    """The parts and the values they were given."""

    def __init__(self, rng):
        self.rng = rng
        self.nums = vp.Values(rng, decimals=5, span=20.0)
        self.objs = []
        self.values = {}
        self.log = []
        self.count = 0

    def make(self, field, cls, step):
        """A value of a class; remembers what it must be reported as."""
        rng = self.rng
        self.count += 1
        word = f'{rng.choice(["alpha", "Beta", "gamma delta", "é"])}{step}{field[0]}'
        if field == 'regex':
            text = rng.choice([f'token{step}x+', f'(?i)TOKEN{step}X', f'token{step}x$|^never', rf'\btoken{step}x'])
            value = {'text': text, 'compiled': re.compile(text), 'broken': rng.choice(['(', '[a', '*', '(?P<x'])}[cls]
            want = text
        elif field in ('recover', 'inverse', 'direct') and cls in ('true', 'false'):
            value = want = cls == 'true'
        elif field == 'kind' and cls in ('error', 'warning'):
            value = want = rng.choice([cls, cls.upper(), cls.capitalize()])
        elif field == 'location' and cls in ('stdout', 'stderr'):
            value = want = cls.upper()
        elif cls == 'array':
            want = [self.nums.num(100 * self.count + i) for i in range(3)]
            value = np.array(want)
        elif cls == 'flags':
            want = [rng.random() < 0.5 for _ in range(3)]
            value = list(want)
        elif cls == 'name':
            want = rng.choice(['H', 'Si', 'Fe', 'O', 'Ni'])
            value = rng.choice([want, want.lower(), want.upper()])
        elif cls in ('none', 'nothing'):
            value = want = None
        elif field == 'weight':
            value = want = rng.choice([1.0, 0.25, 3.0, 0.0])
        else:
            value = want = {'text': word, 'empty': '', 'number': rng.choice([0, 1, 7, 2.5]), 'list': [word], 'bytes': b'ERROR',
                            'word': rng.choice(['True', 'stdout ', 'notice', 'CRITICAL', '', 'STD', 'ERRORS', 'file', 'warn', 'stdboth'])}[cls]
        self.values[field, step] = want
        return value

    def want(self, field, val):
        if val['m']:
            return self.values[field, val['m']]
        return {'none': None, 'stdout': 'STDOUT', 'false': False, 'true': True, 'free': [True, True, True]}[val['c']]

    def get(self, obj, kind, field):
        if kind == 'message':
            if field == 'regex':
                return obj.regex.pattern
            return getattr(obj, field)
        got = getattr(obj, 'get_' + field)()
        return got.tolist() if isinstance(got, np.ndarray) else got

    def step(self, e, number):
        """Do a step on the real parts; what came of it."""
        from parsevasp.kpoints import Kpoint
        from parsevasp.poscar import Site
        from parsevasp.stream import VaspStream
        if e['k'] == 'make':
            given = {f: self.make(f, c, number) for f, c in e['given'].items() if c != 'left'}
            self.log.append(f'{e["kind"]}({given})')
            got = vp.call({'message': VaspStream, 'site': Site, 'point': Kpoint}[e['kind']], **given)
            if got[0] == 'ok':
                self.objs.append(got[1])
                return 'made'
            return 'refused' if got[0] == 'exc' else str(got)
        obj = self.objs[e['o'] - 1]
        if e['k'] == 'set':
            value = self.make(e['f'], e['c'], number)
            self.log.append(f'part {e["o"]}: {e["f"]} = {value!r}')
            if hasattr(obj, 'set_' + e['f']):
                got = vp.call(getattr(obj, 'set_' + e['f']), value)
            else:
                got = vp.call(setattr, obj, e['f'], value)
            return {'ok': 'set', 'exc': 'refused'}.get(got[0], str(got))
        if e['k'] == 'touch':
            flags = obj.get_selective()
            flags[self.rng.randrange(3)] = False
            self.values['selective', number] = list(flags)
            self.log.append(f'part {e["o"]}: flags changed in place to {flags}')
            return 'touched'
        token = re.search('(?i)token([0-9]+)x', obj.regex.pattern).group(1)
        if e['hit']:
            line = self.rng.choice([f'token{token}x', f'... token{token}x', f'a token{token}x'])
        else:
            line = self.rng.choice(['', 'something else', f'token{token}y', f'token9{token}x', 'toke'])
            others = [n for n in range(1, number + 1) if n != int(token)]
            if others and self.rng.random() < 0.7:
                # what it looked for before, or what another part looks for
                line = f'token{self.rng.choice(others)}x'
        self.log.append(f'part {e["o"]}: look at {line!r}')
        got = vp.call(obj.check_line, line)
        if got[0] != 'ok':
            return str(got)
        if got[1] is None:
            return 'nothing'
        if any(got[1] is other for other in self.objs):
            return 'found a part that is there already'
        self.objs.append(got[1])
        return 'found'

    def compare(self, parts):
        """Every part against what it must hold."""
        if len(parts) != len(self.objs):
            return f'{len(self.objs)} parts, expected {len(parts)}'
        for number, (part, obj) in enumerate(zip(parts, self.objs), 1):
            kind = part['kind']
            for field in FIELDS[kind]:
                got = vp.call(self.get, obj, kind, field)
                want = self.want(field, part['f'][field])
                diff = str(got) if got[0] != 'ok' else vp.deep(want, got[1])
                if not diff and isinstance(want, (str, bool)) and type(got[1]) is not type(want):
                    diff = f'{got[1]!r} for {want!r}'
                if diff:
                    return f'part {number}, {field}: {diff}'
            if kind == 'message':
                if obj.recoverable is not self.want('recover', part['f']['recover']):
                    return f'part {number}, recoverable: {obj.recoverable}'
                for shown, fields in ((vp.call(str, obj), ['kind', 'shortname', 'message']), (vp.call(repr, obj), ['kind', 'message', 'recover', 'inverse'])):
                    for field in fields:
                        if shown[0] != 'ok' or str(self.want(field, part['f'][field])) not in shown[1]:
                            return f'part {number} is shown as {shown}'
        return None


def judge(case):
    world = World(random.Random(case['salt']))
    for number, (e, out, parts) in enumerate(zip(case['trail'], case['outs'], case['states']), 1):
        got = world.step(e, number)
        diff = f'step {number}: {got}, expected {out}' if got != out else world.compare(parts)
        if diff:
            return {'bad': diff, 'input': '\n'.join(world.log)}
    return {'input': '\n'.join(world.log)}


def check_P32(check):
    deep = check.thorough
    rng = check.rng('parts')

    def explore(name, steps, cap):
        """Every way to make a part, or every pair of later steps."""
        if check.replay is not None and check.replay.get('group') != name:
            return
        res = vp.tlc('Parts', f'SPECIFICATION SpecMC\nINVARIANTS Meaning Emit\nCONSTANTS\n  MCSteps = {steps}\n')
        check.add_tlc(res, name, True)
        recs = sorted(res['records'], key=str)
        recs = recs if len(recs) <= cap else rng.sample(recs, cap)
        check.run(name, [dict(rec, salt=f'{check.seed}-{name}-{i}') for i, rec in enumerate(recs)], judge)

    explore('made', 1, 10**9)
    explore('edited', 3, 10**9)
    explore('edited twice', 4, 60000 if deep else 4000)
    docs = []
    for _ in range(8000 if deep else 1200):
        kinds = rng.choice([['message'], ['message'], ['site'], ['message', 'site', 'point'], ['site', 'point']])
        risk = rng.choice([0.0, 0.02, 0.1])
        # some histories stay with one message and look at lines more often
        close = rng.random() < 0.4
        kinds = ['message'] if close else kinds
        doc, made = [], []
        for _ in range(rng.choice([3, 6, 10, 16])):
            k = rng.choice(['look', 'look', 'set'] if close else ['make', 'set', 'set', 'set', 'look', 'touch']) if made else 'make'
            if k == 'make':
                kind = rng.choice(kinds)
                made.append(kind)
                given = {}
                for f in FIELDS[kind]:
                    if (f in OPTIONAL or (f == 'direct')) and rng.random() < 0.5:
                        given[f] = 'left'
                    else:
                        given[f] = rng.choice(BAD[f] if f in BAD and rng.random() < risk else GOOD[f])
                doc.append({'k': 'make', 'kind': kind, 'given': given})
            else:
                o = 1 if close and rng.random() < 0.7 else rng.randint(1, len(made) + 1)
                if k == 'look':
                    doc.append({'k': 'look', 'o': o, 'hit': rng.random() < 0.7})
                elif k == 'touch':
                    doc.append({'k': 'touch', 'o': o})
                else:
                    f = 'regex' if close and rng.random() < 0.4 else rng.choice(LATER[rng.choice([x for x in kinds if LATER[x]])])
                    doc.append({'k': 'set', 'o': o, 'f': f, 'c': rng.choice(BAD[f] if f in BAD and rng.random() < 0.4 else GOOD[f])})
        docs.append(doc)
    res = vp.tlc_docs('Parts', docs, 'SPECIFICATION SpecDocs\nINVARIANTS Meaning Emit\nCONSTANTS\n  MCSteps = 0\n')
    check.add_tlc(res, 'histories')
    check.run('histories', [dict(rec, salt=f'{check.seed}-histories-{i}') for i, rec in enumerate(res['records'])], judge)
