"""Generations of written files (P28): histories of specs/Rewrite.tla."""
import io
import random

import numpy as np

import vp

KINDS = ['poscar', 'poscar', 'poscar-cart', 'explicit', 'line', 'auto', 'vectors']


class Thing:
    """A structure or k-point set that holds the numbers of the model in places of some kind, and how it looks."""

    def __init__(self, kind, rng):
        self.kind, self.rng = kind, rng
        self.shift = rng.choice([0, 0, 3, 6, 7])    # where the decimal point of the model's numbers stands
        self.fixed = {'comment': rng.choice(['one', 'two words', None if kind.startswith('poscar') else 'three'])}
        self.flags = [[rng.random() < 0.5 for _ in range(3)] for _ in range(400)]
        self.selective = rng.random() < 0.5
        self.velocities = rng.random() < 0.5
        self.predictors = self.velocities and rng.random() < 0.5
        self.names = rng.sample(vp.PERIODIC, 3)
        self.tetra = kind == 'explicit' and rng.random() < 0.5
        self.shifts = rng.random() < 0.5
        self.centering = rng.choice(['Gamma', 'Monkhorst-Pack'])
        self.ints = [rng.randint(1, 30) for _ in range(3)]
        self.cell = rng.sample([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], 3) if kind == 'poscar-cart' else None

    def triples(self, values):
        values = [v / 10 ** (6 + self.shift) for v in values]
        while len(values) % 3:
            values.append(0.5)
        return [values[i:i + 3] for i in range(0, len(values), 3)]

    def build(self, values, prec):
        """The object that holds these numbers."""
        prec += self.shift
        rows = self.triples(values)
        if self.kind.startswith('poscar'):
            from parsevasp.poscar import Poscar, Site
            sites = [Site(self.names[i * 3 // len(rows)], np.array(r), selective=list(self.flags[i]) if self.selective else [True] * 3,
                          velocities=np.array(rows[-1 - i]) if self.velocities else None,
                          predictors=np.array(rows[(i + 1) % len(rows)]) if self.predictors else None) for i, r in enumerate(rows)]
            cell = np.array(self.cell) if self.cell else np.diag([5.0, 6.0, 7.0]) + 0.5
            return vp.call(Poscar, poscar_dict={'comment': self.fixed['comment'], 'unitcell': cell, 'sites': sites}, prec=prec, conserve_order=True,
                           write_direct=self.kind == 'poscar')
        from parsevasp.kpoints import Kpoint, Kpoints
        base = {'comment': self.fixed['comment'], 'divisions': None, 'shifts': None, 'points': None, 'tetra': None, 'tetra_volume': None,
                'mode': 'automatic', 'centering': None, 'num_kpoints': 0, 'generating_vectors': None}
        if self.kind == 'explicit':
            base.update(mode='explicit', num_kpoints=len(rows), points=[Kpoint(np.array(r), rows[-1 - i][0], True) for i, r in enumerate(rows)])
            if self.tetra:
                base.update(tetra=[[1, 1, 1, 1, 1]], tetra_volume=rows[0][1])
        elif self.kind == 'line':
            base.update(mode='line', num_kpoints=self.ints[0], points=[Kpoint(np.array(r), 1.0, True) for r in rows + rows[:len(rows) % 2]])
        elif self.kind == 'auto':
            base.update(divisions=self.ints, centering=self.centering, shifts=rows[0])
        else:
            base.update(generating_vectors=[rows[i % len(rows)] for i in range(3)], centering='Reciprocal', shifts=rows[-1])
        return vp.call(Kpoints, kpoints_dict=base, prec=prec)

    def reread(self, text, prec):
        prec += self.shift
        if self.kind.startswith('poscar'):
            from parsevasp.poscar import Poscar
            return vp.call(Poscar, poscar_string=text, prec=prec, conserve_order=True, write_direct=self.kind == 'poscar')
        from parsevasp.kpoints import Kpoints
        return vp.call(Kpoints, kpoints_string=text, prec=prec)

    def show(self, obj):
        """What the object reports, without its comment."""
        res = dict(obj.get_dict())
        res.pop('comment', None)
        if self.kind.startswith('poscar'):
            res['sites'] = [{k: (v.tolist() if hasattr(v, 'tolist') else v) for k, v in site.items()} for site in res['sites']]
            res['unitcell'] = np.array(res['unitcell']).tolist()
            for site in res['sites']:
                site['specie'] = site['specie'].lower()
            return res

        def plain(val):
            if hasattr(val, 'get_point'):
                weight = val.get_weight()
                return [list(val.get_point()), None if self.kind == 'line' else weight]
            if isinstance(val, (list, tuple, np.ndarray)):
                return [plain(v) for v in val]
            return val
        return {k: plain(v) for k, v in res.items()}


def judge(case):
    exp = case['exp']
    if exp['open']:
        return {'nontrivial': False, 'traces': 0}
    rng = random.Random(case['salt'])
    thing = Thing(rng.choice(KINDS), rng)
    obj = thing.build(exp['start'], exp['gens'][0]['p'])
    note = f'{thing.kind} {exp["start"]} decimals {[g["p"] for g in exp["gens"]]}'
    if obj[0] != 'ok':
        return {'bad': f'refused valid data: {obj}', 'input': note}
    for i, gen in enumerate(exp['gens']):
        # what the next generation must report is what an object built from the rounded numbers reports
        want = thing.build(gen['v'], 8)
        if want[0] != 'ok':
            return {'nontrivial': False, 'traces': 0}
        how = rng.choice(['string', 'path', 'handle'])
        if how == 'string':
            text = vp.call(obj[1].get_string)
            text = text[1] if text[0] == 'ok' else text
        elif how == 'path':
            res = vp.call(obj[1].write, file_path='OUT')
            text = open('OUT', encoding='utf8').read() if res[0] == 'ok' else res
        else:
            handle = io.StringIO()
            res = vp.call(obj[1].write, file_handler=handle)
            text = handle.getvalue() if res[0] == 'ok' else res
        if not isinstance(text, str):
            return {'bad': f'writing generation {i + 1} failed: {text}', 'input': note}
        following = exp['gens'][i + 1]['p'] if i + 1 < len(exp['gens']) else 8
        obj = thing.reread(text, following)
        if obj[0] != 'ok':
            return {'bad': f'generation {i + 1} can not be read back: {obj}', 'input': note + '\n' + text}
        res = vp.call(thing.show, obj[1])
        diff = str(res) if res[0] != 'ok' else vp.deep(thing.show(want[1]), res[1], 'data', tol=0.1 ** (7 + thing.shift))
        if diff:
            return {'bad': f'generation {i + 1}: {diff}', 'input': note + '\n' + text}
    return {'input': note}


def cfg(spec, **const):
    return f'SPECIFICATION {spec}\nINVARIANTS Meaning Emit\nCONSTANTS\n' + '\n'.join(f'  {k} = {v}' for k, v in const.items()) + '\n'


def check_P28(check):
    deep = check.thorough
    if check.replay is None or check.replay.get('group') == 'generations':
        res = vp.tlc('Rewrite', cfg('SpecMC', Numbers='{0, 1, 499999, 123456, 999996, 2147483}' if deep else '{1, 499999, 123456, 999996}',
                                    Decimals='{1, 3, 4, 6, 9}' if deep else '{2, 4, 6, 9}', MaxGens=3))
        check.add_tlc(res, 'generations', True)
        recs = sorted(res['records'], key=str)
        check.run('generations', [dict(exp=r['exp'], salt=f'{check.seed}-{i}') for i, r in enumerate(recs)], judge, 64)
    rng = check.rng('large')
    docs = []
    for _ in range(4000 if deep else 800):
        count = rng.choice([3, 6, 9, 30])
        values = [rng.choice([rng.randint(-999999, 999999), rng.randint(-200000000, 2000000000), rng.randint(-9, 9), 0]) for _ in range(count)]
        docs.append({'v': values, 'p': [rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 15]) for _ in range(rng.choice([1, 2, 3, 5]))]})
    res = vp.tlc_docs('Rewrite', docs, cfg('SpecDocs', Numbers='{}', Decimals='{}', MaxGens=9))
    check.add_tlc(res, 'large')
    check.run('large', [dict(exp=r['exp'], salt=f'{check.seed}-l{i}') for i, r in enumerate(res['records'])], judge, 32)
