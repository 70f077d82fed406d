"""P29: objects made from dictionaries and edited entry by entry. Specification: Given.tla."""
import random

import numpy as np

import vp

CODES = {'type': (13, 105), 'nokey': (12,), 'mode': (213,), 'centering': (212,), 'five': (201,), 'object': (210,), 'empty': (206,),
         'mixed': (104,), 'comments': (103,), 'tag': (100,), 'sign': (106,)}
KPOINTS = ('automatic', 'generating', 'explicit', 'tetrahedra', 'line')
TAGS = {'int': ('ismear', 'nsw', 'nelm', 'ibrion'), 'text': ('algo', 'prec', 'gga')}
ENTRIES = {'poscar': ('comment', 'unitcell', 'sites'),
           'kpoints': ('comment', 'divisions', 'shifts', 'points', 'tetra', 'tetra_volume', 'mode', 'centering', 'num_kpoints', 'generating_vectors')}


class Maker:
    """Concrete values of the classes of Given.tla, each with the plain value it must be reported as."""

    def __init__(self, kind, rng):
        self.kind = kind
        self.rng = rng
        self.nums = vp.Values(rng, decimals=4, span=9.0)
        self.count = 0
        self.held_points = 2

    def num(self):
        self.count += 1
        return self.nums.num(self.count)

    def nat(self):
        return self.rng.randint(1, 9)

    def site(self, plain):
        from parsevasp.poscar import Site
        name = self.rng.choice(['Si', 'O', 'Fe'])
        pos = np.array([self.num() for _ in range(3)])
        vel = None
        parts = dict(specie=name, position=pos, selective=[True, self.rng.random() < 0.5, True], velocities=vel, predictors=None, direct=True)
        want = {'specie': name, 'position': pos.tolist(), 'selective': parts['selective'], 'velocities': None, 'predictors': None, 'direct': True}
        return (parts if plain else Site(**parts)), want

    def point(self):
        from parsevasp.kpoints import Kpoint
        pos, weight = np.array([self.num() for _ in range(3)]), 1.0 if self.kind == 'line' else float(self.nat())
        return Kpoint(pos, weight, True), [pos.tolist(), weight, True]

    def make(self, key, cls):
        """(value, what must be reported for it)."""
        rng = self.rng
        if key == 'unitcell' and cls in ('matrix', 'whole', 'lists', 'flat', 'short'):
            cell = np.diag([3.0 + abs(self.num()) for _ in range(3)])
            cell[1, 0] = 0.5
            if cls == 'whole':
                cell = np.round(cell).astype(int)
            if cls == 'short':
                return rng.choice([cell[:2], cell[:, :2], np.zeros((3, 3, 1)), np.zeros((4, 4)), cell[None], np.array([cell, cell]), cell.ravel(), cell.reshape(1, 9), np.zeros(0), np.array(1.0)]), None
            return {'matrix': cell, 'whole': cell, 'lists': cell.tolist(), 'flat': cell[0]}[cls], cell.tolist()
        if key == 'sites':
            count = rng.choice([1, 2, 3, 5])
            if cls in ('sites', 'dicts', 'both', 'tuple', 'untold'):
                made = [self.site(plain=cls in ('dicts', 'untold') or (cls == 'both' and (i % 2 == 0))) for i in range(count)]
                value = [m[0] for m in made]
                if cls == 'untold':
                    del value[rng.randrange(count)][rng.choice(sorted(value[0]))]
                return (tuple(value) if cls == 'tuple' else value), [m[1] for m in made]
            if cls in ('alien', 'aliens'):
                value = [self.site(plain=False)[0] for _ in range(count)]
                value.insert(rng.randrange(count + 1), rng.choice([None, 3, 'Si', [0.0, 0.0, 0.0], ('Si', 0.0)]))
                return (value if cls == 'alien' else [rng.choice([None, 3, 'Si'])]), None
        if key == 'points':
            count = rng.choice([1, 2, 3, 6])
            made = [self.point() for _ in range(count)]
            value = [m[0] for m in made]
            if cls in ('points', 'tuple'):
                self.held_points = count
                return (tuple(value) if cls == 'tuple' else value), [m[1] for m in made]
            if cls == 'alien':
                value.insert(rng.randrange(count + 1), rng.choice([None, 3, [0.0, 0.0, 0.0], np.zeros(3)]))
                return value, None
            if cls == 'aliens':
                return [[0.0, 0.5, 0.0], [0.5, 0.5, 0.0]], None
        if key == 'mode' and cls == 'mode':
            mode = {'generating': 'automatic', 'tetrahedra': 'explicit'}.get(self.kind, self.kind)
            return mode, mode
        if key == 'mode':
            return {'text': rng.choice(['expl', 'Automatic', 'gamma', '']), 'number': 3}[cls], None
        if key == 'centering':
            if cls == 'centering':
                text = 'Reciprocal' if self.kind == 'generating' else rng.choice(['Gamma', 'Monkhorst-Pack'])
                return text, text
            if cls == 'text':
                return rng.choice(['gamma', 'Monkhorst', 'G', '', 'reciprocal']), None
        if key == 'tetra' and cls in ('tetra', 'tuples', 'floats', 'four', 'six', 'tuple'):
            rows = [[self.nat() for _ in range({'four': 4, 'six': 6}.get(cls, 5))] for _ in range(rng.choice([1, 2, 4]))]
            if cls == 'floats':
                rows[-1][rng.randrange(5)] = 1.5
            if cls == 'tuples':
                rows[-1] = tuple(rows[-1])
            return (tuple(rows) if cls == 'tuple' else rows), rows
        if key == 'generating_vectors' and cls in ('vectors', 'whole', 'flat', 'tuples', 'fewer', 'more', 'narrow', 'wide'):
            rows = [[self.num() for _ in range(3)] for _ in range({'fewer': rng.choice([0, 1, 2]), 'more': 4}.get(cls, 3))]
            if cls == 'narrow':
                del rows[rng.randrange(3)][rng.randrange(3):]
            if cls == 'wide':
                rows[rng.randrange(3)].append(0.5)
            if cls == 'whole':
                rows[rng.randrange(3)][rng.randrange(3)] = 2
            if cls == 'tuples':
                rows[rng.randrange(3)] = (0.0, 0.5, 0.0)
            return (rows[0] if cls == 'flat' else rows), rows
        if key == 'num_kpoints':
            return {'int': (self.nat() + 1,) * 2, 'none': (None, None), 'float': (2.0, None), 'text': (rng.choice(['2', '']), None), 'list': ([2], None)}[cls]
        if key == 'divisions' and cls == 'floats':
            value = [self.nat(), self.nat(), self.nat()]
            value[rng.randrange(3)] = float(self.nat())
            return value, None
        if key in ('divisions', 'shifts') and cls in ('fewer', 'more'):
            count = rng.choice([0, 1, 2] if cls == 'fewer' else [4, 5, 6])
            return [self.nat() if key == 'divisions' else self.num() for _ in range(count)], None
        if key == 'shifts' and cls == 'ints':
            value = [self.num(), self.num(), self.num()]
            value[rng.randrange(3)] = 0
            return value, None
        # plain ones
        incar = self.kind.startswith('incar')
        ints = [self.nat() for _ in range(3)]
        floats = [abs(self.num()) + 0.5 for _ in range(3)]
        word = rng.choice(['Fast', 'Normal', 'PBE', 'x_y'])
        words = [word, rng.choice(['Alpha', 'B2'])]
        flags = [rng.random() < 0.5 for _ in range(3)]
        if key == 'comment':
            word = rng.choice(['a comment', 'x', 'one two 3'])
        table = {'none': (None, None), 'text': (word, word), 'number': (rng.choice([3, 2.5]), None), 'list': (['a'], None),
                 'lines': (rng.choice(['a\nb', 'a\n', '\nb', 'a\r\nb', 'a\n1.0\nb']), None),
                 'int': (ints[0], ints[0]), 'float': (floats[0], floats[0]), 'bool': (flags[0], flags[0]), 'word': (word, word),
                 'ints': (list(ints), ints), 'floats': (list(floats), floats), 'bools': (list(flags), flags), 'words': (list(words), words),
                 'textint': (f' {ints[0]} ', ints[0]), 'textfloats': (' '.join(map(repr, floats)), floats),
                 'textbool': ('.TRUE.', True), 'array': (np.array(ints), None), 'dict': ({'a': 1}, None), 'complex': (1j, None),
                 'mixed': (rng.choice(['1 2.5', '1 a', '.TRUE. 3', 'a 2 b']), None), 'hashes': ('1 # a # b', None),
                 'sign': (rng.choice(['a;b', 'a = b', '1; 2', ['a', 'b#c'], ['a', 'b;'], ['a\nENCUT = 3', 'b']]), None)}
        if not incar and key != 'comment' and cls == 'text' and rng.random() < 0.4:
            return '', None
        if cls == 'tuple' and key != 'divisions' and rng.random() < 0.2:
            return (), None
        if cls == 'number':
            return rng.choice([3, 2.5, 0, 0.0, True, False]), None
        if cls == 'list' and key != 'comment':
            return rng.choice([[1.0], [0], ['a']]), None
        if cls == 'tuple':
            return tuple(ints) if key == 'divisions' else tuple(floats), None
        return table[cls]


def judge(case):
    kind = case['doc'][0]['c']
    rng = random.Random(case['salt'])
    maker = Maker(kind, rng)
    held = {}
    note = [kind]
    incar = kind.startswith('incar')
    if incar:
        from parsevasp.incar import Incar
        names = dict(zip(('one', 'two'), rng.sample(['encut', 'sigma', 'nsw', 'algo', 'ediff', 'rwigs', 'lreal'], 2)))
        options = {'validate_tags': kind == 'incar'}
    elif kind == 'poscar':
        from parsevasp.poscar import Poscar
    else:
        from parsevasp.kpoints import Kpoints

    def entry(key, cls):
        if incar:
            return 'nosuchtag' + key if cls == 'unknown' else names[key]
        return key

    def bad(text):
        return {'bad': text, 'input': '\n'.join(note)[:3000]}

    def verdict(res, exp, what):
        if exp['out'] == 'ok':
            return None if res[0] == 'ok' else f'{what} was refused: {res}'
        codes = [c for why in exp['why'] for c in CODES[why]]
        if res[0] == 'ok':
            return f'{what} was accepted, it should be refused ({exp["why"]})'
        return None if res[0] == 'exit' and res[1] in codes else f'{what}: refused with {res}, expected one of the exits {codes} ({exp["why"]})'

    obj = None
    for step, exp in zip(case['doc'], case['exp']):
        if 'd' in step:
            given = {}
            keys = list(step['d'])
            rng.shuffle(keys)
            for key in keys:
                cls = step['d'][key]
                if cls == 'absent':
                    continue
                value, want = (5, 5) if cls == 'unknown' else maker.make(key, cls)
                if key == 'num_kpoints' and kind in ('explicit', 'tetrahedra') and cls == 'int':
                    value = want = None  # below
                given[entry(key, cls)] = value
                held[key] = (entry(key, cls), want)
            if step['d'].get('num_kpoints') == 'int' and kind in ('explicit', 'tetrahedra'):
                number = maker.held_points
                given['num_kpoints'] = number
                held['num_kpoints'] = ('num_kpoints', number)
            note.append(str({k: v for k, v in given.items()}))
            if incar:
                res = vp.call(Incar, incar_dict=given, **options)
            elif kind == 'poscar':
                res = vp.call(Poscar, poscar_dict=given)
            else:
                res = vp.call(Kpoints, kpoints_dict=given)
            diff = verdict(res, exp, 'the dictionary')
            if diff:
                return bad(diff)
            if res[0] != 'ok':
                return {'input': '\n'.join(note)}
            obj = res[1]
        else:
            key, cls = step['key'], step['v']
            before = maker.held_points
            value, want = maker.make(key, cls)
            if key == 'num_kpoints' and kind in ('explicit', 'tetrahedra') and cls == 'int':
                value = want = maker.held_points
            name = held[key][0] if key in held else entry(key, cls)
            note.append(f'modify {name}: {value}')
            res = vp.call(obj.modify, name, value)
            diff = verdict(res, exp, f'the edit of {key} to {value}')
            if diff:
                return bad(diff)
            if exp['out'] == 'ok':
                held[key] = (name, want)
                if key == 'points' and kind in ('explicit', 'tetrahedra') and cls == 'points':
                    held['num_kpoints'] = ('num_kpoints', maker.held_points)
            else:
                maker.held_points = before
        want = {name: value for name, value in held.values()}
        got = vp.call(obj.get_dict)
        if got[0] != 'ok':
            return bad(f'get_dict: {got}')
        got = dict(got[1])
        if kind in KPOINTS and got.get('points') is not None:
            got['points'] = [list(p) for p in got['points']]
        diff = vp.deep(want, got)
        if diff:
            return bad(diff)
        if exp['writable']:
            text = vp.call(obj.get_string)
            if text[0] != 'ok':
                return bad(f'it cannot be written: {text}')
            diff = reread(kind, want, text[1])
            if diff:
                return bad(f'written as\n{text[1]}\n{diff}')
    return {'input': '\n'.join(note)}


def reread(kind, want, text):
    """What the text says, against what is held."""
    if kind.startswith('incar'):
        from parsevasp.incar import Incar
        res = vp.call(Incar, incar_string=text, validate_tags=False)
        single = {k: v[0] if isinstance(v, list) and len(v) == 1 else v for k, v in want.items()}
        return vp.deep(single, res[1].get_dict()) if res[0] == 'ok' else str(res)
    if kind == 'poscar':
        from parsevasp.poscar import Poscar
        res = vp.call(Poscar, poscar_string=text)
        if res[0] != 'ok':
            return str(res)
        got = res[1].get_dict()
        order = lambda sites: sorted(sites, key=lambda s: (s['specie'], list(s['position'])))  # noqa: E731
        return vp.deep({'unitcell': want['unitcell'], 'sites': order(want['sites'])}, {'unitcell': got['unitcell'], 'sites': order(got['sites'])})
    from parsevasp.kpoints import Kpoints
    res = vp.call(Kpoints, kpoints_string=text)
    if res[0] != 'ok':
        return str(res)
    got = res[1].get_dict()
    mine = {'automatic': ('divisions', 'shifts', 'centering'), 'generating': ('generating_vectors', 'shifts', 'centering'),
            'explicit': ('points', 'num_kpoints', 'tetra'), 'tetrahedra': ('points', 'num_kpoints', 'tetra'), 'line': ('points', 'num_kpoints')}[kind]
    want = {k: want[k] for k in mine + ('mode',)}
    got = {k: got[k] for k in mine + ('mode',)}
    if 'shifts' in want and want['shifts'] is None:
        want['shifts'] = [0.0, 0.0, 0.0]
    if got.get('points') is not None:
        got['points'] = [list(p) for p in got['points']]
    return vp.deep(want, got)


def random_history(rng, table):
    kind = rng.choice(sorted(table))
    usual = table[kind]['usual']
    values = table[kind]['values']
    d = dict(usual)
    for key in rng.sample(sorted(d), min(len(d), rng.choice([0, 0, 1, 2, 3]))):
        d[key] = rng.choice(values[key])
    steps = [{'c': kind, 'd': d}]
    for _ in range(rng.choice([2, 5, 9])):
        key = rng.choice(sorted(d))
        steps.append({'key': key, 'v': rng.choice(values[key])})
    return steps


def cfg(spec, length, dev, kinds):
    return (f'SPECIFICATION {spec}\nINVARIANTS Meaning Emit\nCONSTANTS\n  MaxLen = {length}\n  Deviations = {dev}\n'
            '  MCKinds = {' + ', '.join(f'"{k}"' for k in kinds) + '}\n')


ALL = ['poscar', 'automatic', 'generating', 'explicit', 'tetrahedra', 'line', 'incar', 'incar-any']


def wants(check, name):
    return check.replay is None or check.replay.get('group') == name


def check_P29(check):
    deep = check.thorough
    rng = check.rng('given')
    res = vp.tlc('Given', cfg('SpecMC', 0, 2, ALL))
    check.add_tlc(res, 'dictionaries', True)
    recs = sorted(res['records'], key=lambda r: str(r['doc']))
    table = {}
    for rec in recs:
        first = rec['doc'][0]
        mine = table.setdefault(first['c'], {'usual': None, 'values': {}})
        for key, val in first['d'].items():
            mine['values'].setdefault(key, set()).add(val)
    for mine in table.values():
        mine['values'] = {k: sorted(v) for k, v in mine['values'].items()}
    for rec in recs:
        # the usual dictionary: the one whose values are the most common ones
        table[rec['doc'][0]['c']].setdefault('all', []).append(rec['doc'][0]['d'])
    for mine in table.values():
        mine['usual'] = {k: max(v, key=lambda x, k=k: sum(d[k] == x for d in mine['all'])) for k, v in mine['values'].items()}
    if wants(check, 'dictionaries'):
        check.run('dictionaries', [dict(doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-d{i}-{j}') for i, r in enumerate(recs)
                                   for j in range(4 if deep else 1)], judge)
    if wants(check, 'edits'):
        res = vp.tlc('Given', cfg('SpecMC', 1, 1, ALL))
        check.add_tlc(res, 'edits', True)
        recs = sorted(res['records'], key=lambda r: str(r['doc']))
        check.run('edits', [dict(doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-e{i}-{j}') for i, r in enumerate(recs)
                            for j in range(3 if deep else 1)], judge)
    docs = [random_history(rng, table) for _ in range(8000 if deep else 1200)]
    res = vp.tlc_docs('Given', docs, cfg('SpecDocs', 0, 0, []))
    check.add_tlc(res, 'histories')
    check.run('histories', [dict(doc=r['doc'], exp=r['exp'], salt=f'{check.seed}-h{i}') for i, r in enumerate(res['records'])], judge)
